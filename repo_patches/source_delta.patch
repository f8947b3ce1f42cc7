From 4f456853f7fd849b8d9fa669ef994740f101ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 001/223] fix: read numbers with a leading '+' and integers
 beyond 64 bits

A leading '+' is legal (ISO 32000-1 7.3.3) but std::from_chars refuses it. Reals are
written without a decimal point when they are integral, so a real beyond the
int64 range could be written but not read back: such integers become reals.
---
 src/pdfmm/base/PdfTokenizer.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..cd3b57c 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -279,10 +279,25 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 start++;
             }
 
+            // NOTE: A leading '+' is legal in PDF but it's not accepted by std::from_chars
+            const char* numStart = token.data();
+            const char* numEnd = token.data() + token.length();
+            if (numEnd - numStart > 1 && numStart[0] == '+' && numStart[1] != '-')
+                numStart++;
+
+            int64_t num;
+            if (dataType == PdfLiteralDataType::Number
+                && std::from_chars(numStart, numEnd, num).ec == std::errc::result_out_of_range)
+            {
+                // ISO 32000-1 7.3.3: integers that exceed the
+                // implementation limits are converted to reals
+                dataType = PdfLiteralDataType::Real;
+            }
+
             if (dataType == PdfLiteralDataType::Real)
             {
                 double val;
-                if (std::from_chars(token.data(), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
+                if (std::from_chars(numStart, numEnd, val, chars_format::fixed).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -294,8 +309,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             }
             else if (dataType == PdfLiteralDataType::Number)
             {
-                int64_t num;
-                if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+                if (std::from_chars(numStart, numEnd, num).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
-- 
2.43.0


From 33c2c50a90c1912900d670b18b7b6dd2918d1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 002/223] fix: read every legal spelling of literal strings

An octal escape followed by a parenthesis or a backslash, a backslash before an
ordinary character, and CR / CR LF line ends within a string were misread.
---
 src/pdfmm/base/PdfTokenizer.cpp | 42 +++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index cd3b57c..11ae8e7 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -24,6 +24,7 @@ using namespace mm;
 static char getEscapedCharacter(char ch);
 static void readHexString(InputStreamDevice& device, charbuff& buffer);
 static bool isOctalChar(char ch);
+static void skipLineFeed(InputStreamDevice& device);
 
 PdfTokenizer::PdfTokenizer(bool readReferences)
     : PdfTokenizer(std::make_shared<charbuff>(BufferSize), readReferences)
@@ -523,28 +524,15 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
 
                 if (!isOctalChar(ch))
                 {
-                    if (ch == ')')
-                    {
-                        // Handle end of string while reading octal code
-                        // NOTE: The octal value is added outside of the loop
-                        break;
-                    }
-
                     // No octal character anymore,
                     // so the octal sequence must be ended
                     // and the character has to be treated as normal character!
                     m_charBuffer.push_back(octValue);
-
-                    if (ch != '\\')
-                    {
-                        m_charBuffer.push_back(ch);
-                        escape = false;
-                    }
-
+                    escape = false;
                     octEscape = false;
                     octCharCount = 0;
                     octValue = 0;
-                    continue;
+                    goto RawChar;
                 }
 
                 octValue <<= 3;
@@ -569,13 +557,18 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
             }
             else
             {
-                // Ignore end of line characters when reading escaped sequences
-                if (ch != '\n' && ch != '\r')
+                if (ch == '\n' || ch == '\r')
                 {
-                    // Handle plain escape sequences
+                    // Ignore end of line markers when reading escaped sequences
+                    if (ch == '\r')
+                        skipLineFeed(device);
+                }
+                else
+                {
+                    // Handle plain escape sequences. If the character is not
+                    // a valid escape only the reverse solidus is ignored
                     char escapedCh = getEscapedCharacter(ch);
-                    if (escapedCh != '\0')
-                        m_charBuffer.push_back(escapedCh);
+                    m_charBuffer.push_back(escapedCh == '\0' ? ch : escapedCh);
                 }
 
                 escape = false;
@@ -583,6 +576,7 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
         }
         else
         {
+        RawChar:
             // Handle raw characters
             if (balanceCount == 0 && ch == ')')
                 break;
@@ -829,3 +823,11 @@ bool isOctalChar(char ch)
             return false;
     }
 }
+
+// Skip the line feed of a CR LF end of line marker
+void skipLineFeed(InputStreamDevice& device)
+{
+    char ch;
+    if (device.Peek(ch) && ch == '\n')
+        (void)device.ReadChar();
+}
-- 
2.43.0


From ea643eaf3702559bcfe3cf21d58006e5db218534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:50 +0000
Subject: [PATCH 003/223] fix: keep the second of two trailing integers

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 11ae8e7..109cd6c 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -352,6 +352,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 if (!gotToken)
                 {
                     // No third token, so it can't be a reference
+                    this->EnqueueToken(tmp, secondTokenType);
                     return PdfLiteralDataType::Number;
                 }
                 if (thirdTokenType == PdfTokenType::Literal &&
-- 
2.43.0


From 7e924402011ff449eb59c6d703f15f21bc969698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 004/223] fix: compare strings by their text, whether evaluated
 or not

---
 src/pdfmm/base/PdfString.cpp | 142 +++++++++++++++--------------------
 src/pdfmm/base/PdfString.h   |   3 +-
 2 files changed, 61 insertions(+), 84 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..bc3c4f4 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -31,6 +31,7 @@ enum class StringEncoding
 
 static char getEscapedCharacter(char ch);
 static StringEncoding getEncoding(const string_view& view);
+static PdfStringState decodeText(const string_view& data, string& utf8);
 
 PdfString::PdfString()
     : m_data(new StringData{ PdfStringState::Ascii, { } }), m_isHex(false)
@@ -233,16 +234,19 @@ const PdfString& PdfString::operator=(const PdfString& rhs)
 
 bool PdfString::operator==(const PdfString& rhs) const
 {
-    if (this == &rhs)
+    if (this->m_data == rhs.m_data)
         return true;
 
-    if (!canPerformComparison(*this, rhs))
-        return false;
-
-    if (this->m_data == rhs.m_data)
+    if (this->m_data->State == PdfStringState::RawBuffer
+        && rhs.m_data->State == PdfStringState::RawBuffer
+        && this->m_data->Chars == rhs.m_data->Chars)
+    {
         return true;
+    }
 
-    return this->m_data->Chars == rhs.m_data->Chars;
+    string buffer;
+    string_view text;
+    return rhs.tryGetText(text, buffer) && operator==(text);
 }
 
 bool PdfString::operator==(const char* str) const
@@ -257,24 +261,14 @@ bool PdfString::operator==(const string& str) const
 
 bool PdfString::operator==(const string_view& view) const
 {
-    if (!isValidText())
-        return false;
-
-    return m_data->Chars == view;
+    string buffer;
+    string_view text;
+    return tryGetText(text, buffer) && text == view;
 }
 
 bool PdfString::operator!=(const PdfString& rhs) const
 {
-    if (this == &rhs)
-        return false;
-
-    if (!canPerformComparison(*this, rhs))
-        return true;
-
-    if (this->m_data == rhs.m_data)
-        return false;
-
-    return this->m_data->Chars != rhs.m_data->Chars;
+    return !operator==(rhs);
 }
 
 bool PdfString::operator!=(const char* str) const
@@ -289,10 +283,7 @@ bool PdfString::operator!=(const string& str) const
 
 bool PdfString::operator!=(const string_view& view) const
 {
-    if (!isValidText())
-        return true;
-
-    return m_data->Chars != view;
+    return !operator==(view);
 }
 
 PdfString::operator string_view() const
@@ -329,48 +320,9 @@ void PdfString::evaluateString() const
             return;
         case PdfStringState::RawBuffer:
         {
-            auto encoding = getEncoding(m_data->Chars);
-            switch (encoding)
-            {
-                case StringEncoding::utf16be:
-                {
-                    // Remove BOM and decode utf-16 string
-                    string utf8;
-                    auto view = string_view(m_data->Chars).substr(2);
-                    utls::ReadUtf16BEString(view, utf8);
-                    utf8.swap(m_data->Chars);
-                    m_data->State = PdfStringState::Unicode;
-                    break;
-                }
-                case StringEncoding::utf16le:
-                {
-                    // Remove BOM and decode utf-16 string
-                    string utf8;
-                    auto view = string_view(m_data->Chars).substr(2);
-                    utls::ReadUtf16LEString(view, utf8);
-                    utf8.swap(m_data->Chars);
-                    m_data->State = PdfStringState::Unicode;
-                    break;
-                }
-                case StringEncoding::utf8:
-                {
-                    // Remove BOM
-                    m_data->Chars.substr(3).swap(m_data->Chars);
-                    m_data->State = PdfStringState::Unicode;
-                    break;
-                }
-                case StringEncoding::PdfDocEncoding:
-                {
-                    bool isAsciiEqual;
-                    auto utf8 = mm::ConvertPdfDocEncodingToUTF8(m_data->Chars, isAsciiEqual);
-                    utf8.swap(m_data->Chars);
-                    m_data->State = isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding;
-                    break;
-                }
-                default:
-                    throw runtime_error("Unsupported");
-            }
-
+            string utf8;
+            m_data->State = decodeText(m_data->Chars, utf8);
+            utf8.swap(m_data->Chars);
             return;
         }
         default:
@@ -378,16 +330,29 @@ void PdfString::evaluateString() const
     }
 }
 
-// Returns true only if same state or it's valid text string
-bool PdfString::canPerformComparison(const PdfString& lhs, const PdfString& rhs)
+// Get the text of the string without evaluating it. Returns
+// false if the raw buffer can't be decoded to a text
+bool PdfString::tryGetText(string_view& text, string& buffer) const
 {
-    if (lhs.m_data->State == rhs.m_data->State)
-        return true;
+    if (m_data->State == PdfStringState::RawBuffer)
+    {
+        try
+        {
+            (void)decodeText(m_data->Chars, buffer);
+        }
+        catch (const utf8::exception&)
+        {
+            return false;
+        }
 
-    if (lhs.isValidText() || rhs.isValidText())
-        return true;
+        text = buffer;
+    }
+    else
+    {
+        text = m_data->Chars;
+    }
 
-    return false;
+    return true;
 }
 
 const string& PdfString::GetRawData() const
@@ -398,18 +363,31 @@ const string& PdfString::GetRawData() const
     return m_data->Chars;
 }
 
-bool PdfString::isValidText() const
+// Decode the raw data to an utf-8 string, returning the resulting state
+PdfStringState decodeText(const string_view& data, string& utf8)
 {
-    switch (m_data->State)
+    switch (getEncoding(data))
     {
-        case PdfStringState::Ascii:
-        case PdfStringState::PdfDocEncoding:
-        case PdfStringState::Unicode:
-            return true;
-        case PdfStringState::RawBuffer:
-            return false;
+        case StringEncoding::utf16be:
+            // Remove BOM and decode utf-16 string
+            utls::ReadUtf16BEString(data.substr(2), utf8);
+            return PdfStringState::Unicode;
+        case StringEncoding::utf16le:
+            // Remove BOM and decode utf-16 string
+            utls::ReadUtf16LEString(data.substr(2), utf8);
+            return PdfStringState::Unicode;
+        case StringEncoding::utf8:
+            // Remove BOM
+            utf8 = data.substr(3);
+            return PdfStringState::Unicode;
+        case StringEncoding::PdfDocEncoding:
+        {
+            bool isAsciiEqual;
+            mm::ConvertPdfDocEncodingToUTF8(data, utf8, isAsciiEqual);
+            return isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding;
+        }
         default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+            throw runtime_error("Unsupported");
     }
 }
 
diff --git a/src/pdfmm/base/PdfString.h b/src/pdfmm/base/PdfString.h
index 69103ff..ec9c873 100644
--- a/src/pdfmm/base/PdfString.h
+++ b/src/pdfmm/base/PdfString.h
@@ -141,8 +141,7 @@ private:
      */
     void initFromUtf8String(const std::string_view& view);
     void evaluateString() const;
-    bool isValidText() const;
-    static bool canPerformComparison(const PdfString& lhs, const PdfString& rhs);
+    bool tryGetText(std::string_view& text, std::string& buffer) const;
 
 private:
     struct StringData
-- 
2.43.0


From e9549f5627c515c4a52db9f5f5e0d45465797894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 005/223] fix: write text that begins like a byte order mark as
 UTF-16

---
 src/pdfmm/base/PdfString.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index bc3c4f4..0d8dd8b 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -304,8 +304,13 @@ void PdfString::initFromUtf8String(const string_view& view)
     }
 
     bool isAsciiEqual;
-    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual))
+    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual)
+        && (isAsciiEqual || getEncoding(mm::ConvertUTF8ToPdfDocEncoding(view)) == StringEncoding::PdfDocEncoding))
+    {
+        // NOTE: A PdfDocEncoding string that begins like a
+        // byte order mark would be read with another encoding
         m_data.reset(new StringData{ isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding, charbuff(view) });
+    }
     else
         m_data.reset(new StringData{ PdfStringState::Unicode, charbuff(view) });
 }
-- 
2.43.0


From 49da8f6f6dfa399cc231c2bc925f3d44a48eefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 006/223] fix: inequality of variants, dictionaries and objects

---
 src/pdfmm/base/PdfDictionary.cpp |  4 +-
 src/pdfmm/base/PdfObject.cpp     |  4 +-
 src/pdfmm/base/PdfVariant.cpp    | 82 +-------------------------------
 3 files changed, 6 insertions(+), 84 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..1d1135f 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -51,8 +51,8 @@ bool PdfDictionary::operator==(const PdfDictionary& rhs) const
 
 bool PdfDictionary::operator!=(const PdfDictionary& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     // We don't check owner
     return m_Map != rhs.m_Map;
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..1c5be31 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -837,8 +837,8 @@ bool PdfObject::operator==(const PdfObject& rhs) const
 
 bool PdfObject::operator!=(const PdfObject& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     if (m_IndirectReference.IsIndirect())
     {
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..6a63983 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -405,7 +405,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Equality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType == PdfDataType::Null;
+            return rhs.m_DataType == PdfDataType::Null;
         case PdfDataType::Unknown:
             return false;
         default:
@@ -415,85 +415,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
 
 bool PdfVariant::operator!=(const PdfVariant& rhs) const
 {
-    if (this != &rhs)
-        return true;
-
-    switch (m_DataType)
-    {
-        case PdfDataType::Bool:
-        {
-            bool value;
-            if (rhs.TryGetBool(value))
-                return m_Data.Bool != value;
-            else
-                return true;
-        }
-        case PdfDataType::Number:
-        {
-            int64_t value;
-            if (rhs.TryGetNumber(value))
-                return m_Data.Number != value;
-            else
-                return true;
-        }
-        case PdfDataType::Real:
-        {
-            // NOTE: Real type equality semantics is strict
-            double value;
-            if (rhs.TryGetRealStrict(value))
-                return m_Data.Real != value;
-            else
-                return true;
-        }
-        case PdfDataType::Reference:
-        {
-            PdfReference value;
-            if (rhs.TryGetReference(value))
-                return m_Data.Reference != value;
-            else
-                return true;
-        }
-        case PdfDataType::String:
-        {
-            const PdfString* value;
-            if (rhs.tryGetString(value))
-                return *(PdfString*)m_Data.Data != *value;
-            else
-                return true;
-        }
-        case PdfDataType::Name:
-        {
-            const PdfName* value;
-            if (rhs.tryGetName(value))
-                return *(PdfName*)m_Data.Data != *value;
-            else
-                return true;
-        }
-        case PdfDataType::Array:
-        {
-            const PdfArray* value;
-            if (rhs.TryGetArray(value))
-                return *(PdfArray*)m_Data.Data != *value;
-            else
-                return true;
-        }
-        case PdfDataType::Dictionary:
-        {
-            const PdfDictionary* value;
-            if (rhs.TryGetDictionary(value))
-                return *(PdfDictionary*)m_Data.Data != *value;
-            else
-                return true;
-        }
-        case PdfDataType::RawData:
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Disequality not yet implemented for RawData");
-        case PdfDataType::Null:
-            return m_DataType != PdfDataType::Null;
-        case PdfDataType::Unknown:
-            return true;
-        default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::NotImplemented);
-    }
+    return !operator==(rhs);
 }
 
 bool PdfVariant::GetBool() const
-- 
2.43.0


From 627bf00fae3bd96163ca75c870a6d749f1cddcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 007/223] fix: assignment of a variant from itself or a part of
 itself

---
 src/pdfmm/base/PdfVariant.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 6a63983..ebed368 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -239,18 +239,20 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
-    return *this;
+    // NOTE: rhs can be this variant, or part of it
+    return operator=(PdfVariant(rhs));
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
+    // NOTE: rhs can be this variant, or part of it
+    auto dataType = rhs.m_DataType;
+    auto data = rhs.m_Data;
     rhs.m_DataType = PdfDataType::Null;
     rhs.m_Data = { };
+    clear();
+    m_DataType = dataType;
+    m_Data = data;
     return *this;
 }
 
-- 
2.43.0


From e7174656a87216d3a374f437facaaa93b6017bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 008/223] fix: assignment of arrays and dictionaries

---
 src/pdfmm/base/PdfArray.cpp      | 13 +++++++++----
 src/pdfmm/base/PdfDictionary.cpp | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..5d15697 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -65,15 +65,20 @@ PdfObject& PdfArray::MustFindAt(unsigned idx)
 
 PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
-    m_Objects = rhs.m_Objects;
-    setChildrenParent();
-    return *this;
+    // NOTE: rhs can be this array, or part of it
+    return operator=(PdfArray(rhs));
 }
 
 PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
-    m_Objects = std::move(rhs.m_Objects);
+    if (this == &rhs)
+        return *this;
+
+    // NOTE: rhs can be part of this array
+    auto objects = std::move(rhs.m_Objects);
+    m_Objects = std::move(objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 1d1135f..02ee92b 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -28,15 +28,20 @@ PdfDictionary::PdfDictionary(PdfDictionary&& rhs) noexcept
 
 PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
-    m_Map = rhs.m_Map;
-    setChildrenParent();
-    return *this;
+    // NOTE: rhs can be this dictionary, or part of it
+    return operator=(PdfDictionary(rhs));
 }
 
 PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
-    m_Map = std::move(rhs.m_Map);
+    if (this == &rhs)
+        return *this;
+
+    // NOTE: rhs can be part of this dictionary
+    auto map = std::move(rhs.m_Map);
+    m_Map = std::move(map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
-- 
2.43.0


From 4095420ac159c3bb1fb0cb281397e2331aff28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 009/223] fix: keep the parent and document of the elements of
 arrays

The elements that are moved when a vector grows, or when other elements are
inserted before them, lost their parent and document: changes made to them
did not reach the owner any more, and references could not be resolved.
---
 src/pdfmm/base/PdfArray.cpp | 23 ++++++++++++++---------
 src/pdfmm/base/PdfArray.h   |  6 ++----
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index 5d15697..b8619c7 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -242,8 +242,14 @@ PdfObject& PdfArray::add(PdfObject&& obj)
 
 PdfArray::iterator PdfArray::insertAt(const iterator& pos, PdfObject&& obj)
 {
+    // NOTE: The objects that are moved by the insertion are detached
+    bool moved = pos != m_Objects.end() || m_Objects.size() == m_Objects.capacity();
     auto ret = m_Objects.emplace(pos, std::move(obj));
-    ret->SetParent(*this);
+    if (moved)
+        setChildrenParent();
+    else
+        ret->SetParent(*this);
+
     return ret;
 }
 
@@ -304,19 +310,16 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 {
     size_t currentSize = m_Objects.size();
     m_Objects.resize(count, val);
-    for (size_t i = currentSize; i < count; i++)
-    {
-        auto& obj = m_Objects[i];
-        obj.SetParent(*this);
-    }
-
     if (currentSize != count)
+    {
+        setChildrenParent();
         SetDirty();
+    }
 }
 
 void PdfArray::Reserve(unsigned n)
 {
-    m_Objects.reserve(n);
+    reserve(n);
 }
 
 PdfObject& PdfArray::operator[](size_type idx)
@@ -375,7 +378,7 @@ void PdfArray::resize(size_t size)
     if (size > numeric_limits<unsigned>::max())
         throw length_error("Too big size");
 #endif
-    m_Objects.resize(size);
+    Resize((unsigned)size);
 }
 
 void PdfArray::reserve(size_t size)
@@ -385,6 +388,8 @@ void PdfArray::reserve(size_t size)
         throw length_error("Too big size");
 #endif
     m_Objects.reserve(size);
+    // NOTE: The objects that are moved by the reallocation are detached
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::front()
diff --git a/src/pdfmm/base/PdfArray.h b/src/pdfmm/base/PdfArray.h
index 0b65b56..2fd7759 100644
--- a/src/pdfmm/base/PdfArray.h
+++ b/src/pdfmm/base/PdfArray.h
@@ -379,15 +379,13 @@ void PdfArray::insert(const PdfArray::iterator& pos,
     const InputIterator& first,
     const InputIterator& last)
 {
-    auto document = GetObjectDocument();
     InputIterator it1 = first;
     iterator it2 = pos;
     for (; it1 != last; it1++, it2++)
-    {
         it2 = m_Objects.insert(it2, *it1);
-        it2->SetDocument(document);
-    }
 
+    // NOTE: The objects that are moved by the insertion are detached
+    setChildrenParent();
     SetDirty();
 }
 
-- 
2.43.0


From 752a59d99bbcbf253424e76551f307f1d4852166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 010/223] fix: assignment of objects with streams, and from
 parts of themselves

A stream that was moved to another object kept pointing to its former owner,
an object kept its stream when an object without one was assigned to it, and
assigning a part of an object to the object itself used it after its
destruction. Objects not loaded yet are loaded before they are moved.
---
 src/pdfmm/base/PdfObject.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 1c5be31..c416c83 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -111,10 +111,11 @@ PdfObject::PdfObject(const PdfObject& rhs)
 // always detached. Ownership will be set automatically elsewhere.
 // Also don't move reference
 PdfObject::PdfObject(PdfObject&& rhs) noexcept :
-    m_Variant(std::move(rhs.m_Variant)),
     m_IsDirty(false)
 {
     initObject();
+    rhs.DelayedLoadStream();
+    m_Variant = std::move(rhs.m_Variant);
     SetVariantOwner();
     moveStreamFrom(rhs);
 }
@@ -382,7 +383,11 @@ void PdfObject::copyStreamFrom(const PdfObject& obj)
     // NOTE: Don't call rhs.DelayedLoad() here. It's implicitly
     // called in PdfVariant assignment or copy constructor
     obj.delayedLoadStream();
-    if (obj.m_Stream != nullptr)
+    if (obj.m_Stream == nullptr)
+    {
+        m_Stream = nullptr;
+    }
+    else
     {
         auto& stream = getOrCreateStream();
         stream = *obj.m_Stream;
@@ -393,6 +398,8 @@ void PdfObject::moveStreamFrom(PdfObject& obj)
 {
     obj.DelayedLoadStream();
     m_Stream = std::move(obj.m_Stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
 }
 
 void PdfObject::EnableDelayedLoading()
@@ -431,24 +438,37 @@ void PdfObject::SetParent(PdfDataContainer& parent)
 // Objects being assigned always keep current ownership
 void PdfObject::assign(const PdfObject& rhs)
 {
-    rhs.DelayedLoad();
-    m_Variant = rhs.m_Variant;
+    if (&rhs == this)
+        return;
+
+    rhs.DelayedLoadStream();
+
+    // NOTE: rhs can be part of this object, or this object part of it
+    PdfVariant variant(rhs.m_Variant);
+    PdfVariant previous(std::move(m_Variant));
+    m_Variant = std::move(variant);
     m_IsDelayedLoadDone = true;
+    m_IsDelayedLoadStreamDone = true;
     SetVariantOwner();
     copyStreamFrom(rhs);
-    m_IsDelayedLoadStreamDone = true;
 }
 
 // NOTE: Don't move parent document/container and indirect reference.
 // Objects being assigned always keep current ownership
 void PdfObject::moveFrom(PdfObject& rhs)
 {
-    rhs.DelayedLoad();
+    if (&rhs == this)
+        return;
+
+    rhs.DelayedLoadStream();
+
+    // NOTE: rhs can be part of this object
+    PdfVariant previous(std::move(m_Variant));
     m_Variant = std::move(rhs.m_Variant);
     m_IsDelayedLoadDone = true;
+    m_IsDelayedLoadStreamDone = true;
     SetVariantOwner();
     moveStreamFrom(rhs);
-    m_IsDelayedLoadStreamDone = true;
 }
 
 void PdfObject::ResetDirty()
-- 
2.43.0


From edb34c694130ef3287c2194cb103b7cb561b8228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 011/223] fix: return nullptr from PdfArray::FindAt for an
 index out of range, as documented

---
 src/pdfmm/base/PdfArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index b8619c7..0abe58c 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -264,7 +264,7 @@ PdfObject& PdfArray::getAt(unsigned idx) const
 PdfObject* PdfArray::findAt(unsigned idx) const
 {
     if (idx >= (unsigned)m_Objects.size())
-        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Index is out of bounds");
+        return nullptr;
 
     auto& obj = const_cast<PdfArray&>(*this).m_Objects[idx];
     if (obj.IsReference())
-- 
2.43.0


From 925241bbf7841220db88c709e9ca66dca4d3b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 012/223] fix: end of data and odd number of digits in
 ASCIIHexDecode streams

The end of data marker was decoded as an undefined digit, and a missing last
digit was not taken as 0. The encoder writes the end of data marker.
---
 src/pdfmm/base/PdfFont.cpp              |  2 +-
 src/pdfmm/private/PdfFiltersPrivate.cpp | 26 +++++++++++++++++++------
 src/pdfmm/private/PdfFiltersPrivate.h   |  3 +++
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index cbbb538..2e1f269 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -161,8 +161,8 @@ void PdfFont::WriteStringToStream(OutputStream& stream, const string_view& str)
     stream.Write("<");
     auto encoded = m_Encoding->ConvertToEncoded(str);
     unique_ptr<PdfFilter> filter = PdfFilterFactory::Create(PdfFilterType::ASCIIHexDecode);
+    // NOTE: The end of data of the filter is also the end of the string
     filter->EncodeTo(stream, encoded);
-    stream.Write(">");
 }
 
 void PdfFont::InitImported(bool wantEmbed, bool wantSubset)
diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..223610a 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -223,7 +223,7 @@ private:
 #pragma region PdfHexFilter
 
 PdfHexFilter::PdfHexFilter()
-    : m_DecodedByte(0), m_Low(true)
+    : m_DecodedByte(0), m_Low(true), m_Eod(false)
 {
 }
 
@@ -238,16 +238,22 @@ void PdfHexFilter::EncodeBlockImpl(const char* buffer, size_t len)
     }
 }
 
+void PdfHexFilter::EndEncodeImpl()
+{
+    GetStream()->Write('>');
+}
+
 void PdfHexFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_DecodedByte = 0;
     m_Low = true;
+    m_Eod = false;
 }
 
 void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
     unsigned char val;
-    while (len-- != 0)
+    while (len-- != 0 && !m_Eod)
     {
         if (PdfTokenizer::IsWhitespace(*buffer))
         {
@@ -255,7 +261,15 @@ void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
             continue;
         }
 
-        (void)utls::TryGetHexValue(*buffer, val);
+        if (*buffer == '>')
+        {
+            m_Eod = true;
+            break;
+        }
+
+        if (!utls::TryGetHexValue(*buffer, val))
+            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
         if (m_Low)
         {
             m_DecodedByte = (char)(val & 0x0F);
@@ -277,9 +291,9 @@ void PdfHexFilter::EndDecodeImpl()
 {
     if (!m_Low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // an odd number of digits was read,
+        // so the last digit is 0
+        GetStream()->Write((char)(m_DecodedByte << 4));
     }
 }
 
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b41d766..65e79c3 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -36,6 +36,8 @@ public:
 
     void EncodeBlockImpl(const char* buffer, size_t len) override;
 
+    void EndEncodeImpl() override;
+
     inline bool CanDecode() const override { return true; }
 
     void BeginDecodeImpl(const PdfDictionary*) override;
@@ -49,6 +51,7 @@ public:
 private:
     char m_DecodedByte;
     bool m_Low;
+    bool m_Eod;
 };
 
 /** The Ascii85 filter.
-- 
2.43.0


From 4b01221d099cb3ddb2c71f10da672094ea0fd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 013/223] fix: end of data marker in ASCII85Decode streams

The encoder did not write it, and the decoder read on after it, or failed,
when the encoded data was handed over in several blocks.
---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 23 ++++++++++++++---------
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 223610a..2109c92 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -307,7 +307,7 @@ void PdfHexFilter::EndDecodeImpl()
 // Paul Haahr - http://www.webcom.com/~haahr/
 
 PdfAscii85Filter::PdfAscii85Filter()
-    : m_count(0), m_tuple(0)
+    : m_count(0), m_tuple(0), m_eod(0)
 {
 }
 
@@ -376,21 +376,25 @@ void PdfAscii85Filter::EndEncodeImpl()
 {
     if (m_count > 0)
         this->EncodeTuple(m_tuple, m_count);
-    //GetStream()->Write( "~>", 2 );
+    GetStream()->Write("~>", 2);
 }
 
 void PdfAscii85Filter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_count = 0;
     m_tuple = 0;
+    m_eod = 0;
 }
 
 void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    bool foundEndMarker = false;
-
-    while (len != 0 && !foundEndMarker)
+    // NOTE: The end marker can be split across blocks, and
+    // everything that follows it is ignored
+    while (len != 0 && m_eod != 2)
     {
+        if (m_eod == 1 && *buffer != '>')
+            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
         switch (*buffer)
         {
             default:
@@ -416,12 +420,13 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
                 this->WidePut(0, 4);
                 break;
             case '~':
-                buffer++;
-                len--;
-                if (len != 0 && *buffer != '>')
+                m_eod = 1;
+                break;
+            case '>':
+                if (m_eod != 1)
                     PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-                foundEndMarker = true;
+                m_eod = 2;
                 break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 65e79c3..2de0f43 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -86,6 +86,7 @@ private:
 private:
     int m_count;
     unsigned m_tuple;
+    int m_eod;      // Characters of the end marker found
 };
 
 /** The Flate filter.
-- 
2.43.0


From 542b53685201d1e383a9b3bede4007c1f8dd6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 014/223] fix: decoding of RunLengthDecode streams

Literal runs lost their last byte, and the signedness of the length byte and
the order of the comparisons made repeated runs and the end of data marker be
read as literal runs.
---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 27 ++++++++++++++-----------
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 2109c92..4630a21 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -615,7 +615,7 @@ void PdfFlateFilter::EndDecodeImpl()
 #pragma region PdfRLEFilter
 
 PdfRLEFilter::PdfRLEFilter()
-    : m_CodeLen(0)
+    : m_CodeLen(0), m_Eod(false)
 {
 }
 
@@ -637,30 +637,33 @@ void PdfRLEFilter::EndEncodeImpl()
 void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_CodeLen = 0;
+    m_Eod = false;
 }
 
 void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    while (len-- != 0)
+    // m_CodeLen is the count of bytes still to be copied
+    // or, negative, how many times the next byte is repeated
+    while (len-- != 0 && !m_Eod)
     {
         if (m_CodeLen == 0)
         {
-            m_CodeLen = static_cast<int>(*buffer);
-        }
-        else if (m_CodeLen == 128)
-        {
-            break;
+            int length = static_cast<unsigned char>(*buffer);
+            if (length == 128)
+                m_Eod = true;
+            else if (length < 128)
+                m_CodeLen = length + 1;
+            else
+                m_CodeLen = length - 257;
         }
-        else if (m_CodeLen <= 127)
+        else if (m_CodeLen > 0)
         {
             GetStream()->Write(buffer, 1);
             m_CodeLen--;
         }
-        else if (m_CodeLen >= 129)
+        else
         {
-            m_CodeLen = 257 - m_CodeLen;
-
-            while (m_CodeLen--)
+            for (; m_CodeLen != 0; m_CodeLen++)
                 GetStream()->Write(buffer, 1);
         }
 
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 2de0f43..2c55d0b 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -151,6 +151,7 @@ public:
 
 private:
     int m_CodeLen;
+    bool m_Eod;
 };
 
 /** The LZW filter.
-- 
2.43.0


From 3349dc6e597674080d4d6133651222f482115704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 015/223] fix: decoding of LZWDecode streams

The state of the decoder did not survive the end of a block, /EarlyChange was
ignored, the first entry of the table got the number of the end of data code
and was made up, and codes that are not in the table were read as others.
---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 155 ++++++++++++------------
 src/pdfmm/private/PdfFiltersPrivate.h   |   8 +-
 2 files changed, 81 insertions(+), 82 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 4630a21..df66712 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -196,6 +196,8 @@ public:
         }
     }
 
+    int GetEarlyChange() const { return m_EarlyChange; }
+
 private:
     int m_Predictor;
     int m_Colors;
@@ -682,8 +684,11 @@ const unsigned short PdfLZWFilter::s_eod = 0x0101;      // end of data
 PdfLZWFilter::PdfLZWFilter() :
     m_mask(0),
     m_code_len(0),
-    m_character(0),
-    m_First(false)
+    m_codeBuff(0),
+    m_buffer_size(0),
+    m_early(1),
+    m_Eod(false),
+    m_HasPrevious(false)
 {
 }
 
@@ -706,108 +711,97 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 {
     m_mask = 0;
     m_code_len = 9;
-    m_character = 0;
-
-    m_First = true;
+    m_codeBuff = 0;
+    m_buffer_size = 0;
+    m_early = 1;
+    m_Eod = false;
+    m_HasPrevious = false;
 
     if (decodeParms != nullptr)
+    {
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
+        m_early = m_Predictor->GetEarlyChange() == 0 ? 0 : 1;
+    }
 
     InitTable();
 }
 
+// NOTE: Codes can be split across blocks
 void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned buffer_size = 0;
-    const unsigned buffer_max = 24;
-
-    uint32_t old = 0;
-    uint32_t code = 0;
-    uint32_t codeBuff = 0;
-
-    TLzwItem item;
+    constexpr unsigned LZW_TABLE_SIZE = 4096;
 
     vector<unsigned char> data;
-    if (m_First)
+    while (len != 0 && !m_Eod)
     {
-        m_character = *buffer;
-        m_First = false;
-    }
+        m_codeBuff = (m_codeBuff << 8) | static_cast<unsigned char>(*buffer);
+        m_buffer_size += 8;
+        buffer++;
+        len--;
 
-    while (len != 0)
-    {
-        // Fill the buffer
-        while (buffer_size <= (buffer_max - 8) && len)
-        {
-            codeBuff <<= 8;
-            codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
-            buffer_size += 8;
+        if (m_buffer_size < m_code_len)
+            continue;
 
-            buffer++;
-            len--;
-        }
+        unsigned code = (m_codeBuff >> (m_buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
+        m_buffer_size -= m_code_len;
 
-        // read from the buffer
-        while (buffer_size >= m_code_len)
+        if (code == PdfLZWFilter::s_clear)
         {
-            code = (codeBuff >> (buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
-            buffer_size -= m_code_len;
+            m_mask = 0;
+            m_code_len = 9;
+            m_HasPrevious = false;
 
-            if (code == PdfLZWFilter::s_clear)
-            {
-                m_mask = 0;
-                m_code_len = 9;
+            InitTable();
+            continue;
+        }
 
-                InitTable();
-            }
-            else if (code == PdfLZWFilter::s_eod)
-            {
-                len = 0;
-                break;
-            }
-            else
-            {
-                if (code >= m_table.size())
-                {
-                    if (old >= m_table.size())
-                    {
-                        PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-                    }
-                    data = m_table[old].value;
-                    data.push_back(m_character);
-                }
-                else
-                    data = m_table[code].value;
+        if (code == PdfLZWFilter::s_eod)
+        {
+            m_Eod = true;
+            break;
+        }
 
-                // Write data to the output device
-                if (m_Predictor != nullptr)
-                    m_Predictor->Decode(reinterpret_cast<char*>(data.data()), data.size(), GetStream());
-                else
-                    GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
+        if (code < m_table.size())
+        {
+            data = m_table[code].value;
+        }
+        else
+        {
+            // The only code that can be not in the table
+            // yet is the one that is going to be added
+            if (!m_HasPrevious || code != m_table.size())
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-                m_character = data[0];
-                if (old < m_table.size()) // fix the first loop
-                    data = m_table[old].value;
-                data.push_back(m_character);
+            data = m_previous;
+            data.push_back(m_previous[0]);
+        }
 
-                item.value = data;
-                m_table.push_back(item);
+        // Write data to the output device
+        if (m_Predictor != nullptr)
+            m_Predictor->Decode(reinterpret_cast<char*>(data.data()), data.size(), GetStream());
+        else
+            GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
 
-                old = code;
+        if (m_HasPrevious && m_table.size() < LZW_TABLE_SIZE)
+        {
+            m_previous.push_back(data[0]);
+            m_table.push_back({ std::move(m_previous) });
 
-                switch (m_table.size())
-                {
-                    case 511:
-                    case 1023:
-                    case 2047:
-                        m_code_len++;
-                        m_mask++;
-                        break;
-                    default:
-                        break;
-                }
+            switch (m_table.size() + m_early)
+            {
+                case 512:
+                case 1024:
+                case 2048:
+                    m_code_len++;
+                    m_mask++;
+                    break;
+                default:
+                    break;
             }
         }
+
+        m_previous = std::move(data);
+        m_HasPrevious = true;
     }
 }
 
@@ -831,9 +825,10 @@ void PdfLZWFilter::InitTable()
         m_table.push_back(item);
     }
 
-    // Add dummy entry, which is never used by decoder
+    // Add dummy entries for the clear table and end of data codes
     item.value.clear();
     m_table.push_back(item);
+    m_table.push_back(item);
 }
 
 #pragma endregion // PdfLZWFilter
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 2c55d0b..27f32d5 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -200,9 +200,13 @@ private:
 
     unsigned m_mask;
     unsigned m_code_len;
-    unsigned char m_character;
+    uint32_t m_codeBuff;
+    unsigned m_buffer_size;
+    unsigned m_early;
+    bool m_Eod;
 
-    bool m_First;
+    bool m_HasPrevious;
+    std::vector<unsigned char> m_previous;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
-- 
2.43.0


From 812c4b99e783dbc20ef118dfe4bce537a3d49d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 016/223] fix: decoding of predictors

Rows and pixels that are not a whole number of bytes were truncated, the PNG
average predictor took bytes as signed, and the TIFF predictor was not
implemented for other than 8 bits per component.
---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 80 ++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index df66712..18c4656 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -55,8 +55,6 @@ public:
         }
 
         m_CurrRowIndex = 0;
-        m_BytesPerPixel = (m_BitsPerComponent * m_Colors) >> 3;
-        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent) >> 3;
 
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
         if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
@@ -65,6 +63,10 @@ public:
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
         }
 
+        // NOTE: Pixels and rows are rounded up to whole bytes
+        m_BytesPerPixel = (int)(((int64_t)m_BitsPerComponent * m_Colors + 7) >> 3);
+        m_Rows = (int)(((int64_t)m_ColumnCount * m_Colors * m_BitsPerComponent + 7) >> 3);
+
         // check that computed allocation sizes are > 0 (CVE-2018-20797)
         if (m_Rows < 1 || m_BitsPerComponent < 1)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
@@ -97,16 +99,8 @@ public:
                 {
                     case 2: // Tiff Predictor
                     {
-                        if (m_BitsPerComponent == 8)
-                        {   // Same as png sub
-                            int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                                ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                            m_Prev[m_CurrRowIndex] = *buffer + prev;
-                            break;
-                        }
-
-                        // TODO: implement tiff predictor for other than 8 BPC
-                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidPredictor, "tiff predictors other than 8 BPC are not implemented");
+                        // The row is decoded when it's complete
+                        m_Prev[m_CurrRowIndex] = *buffer;
                         break;
                     }
                     case 10: // png none
@@ -129,8 +123,9 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : static_cast<unsigned char>(m_Prev[m_CurrRowIndex - m_BytesPerPixel]));
+                        int up = static_cast<unsigned char>(m_Prev[m_CurrRowIndex]);
+                        m_Prev[m_CurrRowIndex] = (char)(((prev + up) >> 1) + *buffer);
                         break;
                     }
                     case 14: // png paeth
@@ -191,6 +186,9 @@ public:
             {   // One line finished
                 m_CurrRowIndex = 0;
                 m_NextByteIsPredictor = (m_CurrPredictor >= 10);
+                if (m_CurrPredictor == 2)
+                    decodeTiffRow();
+
                 stream->Write(m_Prev.data(), m_Rows);
             }
         }
@@ -198,6 +196,60 @@ public:
 
     int GetEarlyChange() const { return m_EarlyChange; }
 
+private:
+    // Add to each component the same component of the pixel on the left
+    void decodeTiffRow()
+    {
+        switch (m_BitsPerComponent)
+        {
+            case 8:
+            {
+                for (int i = m_Colors; i < m_Rows; i++)
+                    m_Prev[i] += m_Prev[i - m_Colors];
+                break;
+            }
+            case 16:
+            {
+                for (int i = m_Colors * 2; i + 1 < m_Rows; i += 2)
+                {
+                    unsigned value = getUInt16(i) + getUInt16(i - m_Colors * 2);
+                    m_Prev[i] = (char)((value >> 8) & 0xFF);
+                    m_Prev[i + 1] = (char)(value & 0xFF);
+                }
+                break;
+            }
+            case 1:
+            case 2:
+            case 4:
+            {
+                unsigned mask = (1u << m_BitsPerComponent) - 1;
+                int64_t count = (int64_t)m_ColumnCount * m_Colors;
+                for (int64_t i = m_Colors; i < count; i++)
+                {
+                    unsigned value = getBits(i, mask) + getBits(i - m_Colors, mask);
+                    int64_t bit = i * m_BitsPerComponent;
+                    unsigned shift = (unsigned)(8 - m_BitsPerComponent - (bit & 7));
+                    auto& byte = m_Prev[(size_t)(bit >> 3)];
+                    byte = (char)((byte & ~(mask << shift)) | ((value & mask) << shift));
+                }
+                break;
+            }
+            default:
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidPredictor, "Unsupported bits per component for tiff predictor");
+        }
+    }
+
+    unsigned getUInt16(int idx) const
+    {
+        return (unsigned)(static_cast<unsigned char>(m_Prev[idx]) << 8 | static_cast<unsigned char>(m_Prev[idx + 1]));
+    }
+
+    unsigned getBits(int64_t component, unsigned mask) const
+    {
+        int64_t bit = component * m_BitsPerComponent;
+        return (static_cast<unsigned char>(m_Prev[(size_t)(bit >> 3)]) >> (8 - m_BitsPerComponent - (bit & 7))) & mask;
+    }
+
 private:
     int m_Predictor;
     int m_Colors;
-- 
2.43.0


From 5aa0372b30538d7dd992fa40e64057dd8e76ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 017/223] fix: write out of bounds when a stream has more
 /DecodeParms than filters

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f29f152..4aa9376 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -317,7 +317,7 @@ unique_ptr<InputStream> PdfObjectStream::getInputStream(bool raw, PdfFilterList&
             }
             else if (decodeParmsObj->TryGetArray(decodeParmsArr))
             {
-                for (unsigned i = 0; i < decodeParmsArr->GetSize(); i++)
+                for (unsigned i = 0; i < std::min((size_t)decodeParmsArr->GetSize(), decodeParms.size()); i++)
                 {
                     auto decodeParmsEntry = decodeParmsArr->FindAt(i);
                     if (decodeParmsEntry == nullptr || !decodeParmsEntry->TryGetDictionary(decodeParmsDict))
-- 
2.43.0


From 37500d9a32da4cd2e86d667e4c74580e0fc8c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 018/223] fix: clear the source of a moved stream, not its
 target

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 4aa9376..15c85fc 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -205,7 +205,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     {
         auto stream = rhs.GetInputStream(true);
         this->SetData(stream, true);
-        m_Provider->Clear();
+        rhs.m_Provider->Clear();
     }
 
     // Fix the /Filter and /DecodeParms keys for
-- 
2.43.0


From 9f357491c83026b454327b3fc12aa7c040701cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 019/223] fix: drop the /DecodeParms of a stream when its data
 is set

The new data was decoded with the parameters of the former filters.
---
 src/pdfmm/base/PdfObjectStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 15c85fc..db59024 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -447,6 +447,8 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
                 m_stream->GetParent().GetDictionary().AddKey(PdfName::KeyFilter, arrFilters);
             }
 
+            // The parameters of former filters don't apply any more
+            m_stream->GetParent().GetDictionary().RemoveKey(DecodeParmsKey);
             m_stream->m_Filters = std::move(filters);
         }
 
-- 
2.43.0


From d5922441de21b98f86e6d672c3d6e1722deb378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 020/223] fix: mark the object as modified when its stream is
 written to

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index db59024..f942e18 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -34,18 +34,21 @@ PdfObjectStream::~PdfObjectStream() { }
 PdfObjectOutputStream PdfObjectStream::GetOutputStreamRaw(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(), append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, { DefaultFilter }, append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(const PdfFilterList& filters, bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(filters), append);
 }
 
-- 
2.43.0


From 12ffea68d92ee076cf51f290fdf079724eab791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 021/223] fix: moving of object input and output streams

The moved streams lost what they read from or wrote to, and the stream that
was replaced by an assignment stayed locked for ever.
---
 src/pdfmm/base/PdfImmediateWriter.cpp |  2 +-
 src/pdfmm/base/PdfObjectStream.cpp    | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfImmediateWriter.cpp b/src/pdfmm/base/PdfImmediateWriter.cpp
index b368a0e..2e8ba27 100644
--- a/src/pdfmm/base/PdfImmediateWriter.cpp
+++ b/src/pdfmm/base/PdfImmediateWriter.cpp
@@ -160,7 +160,7 @@ void PdfImmediateWriter::BeginAppendStream(PdfObjectStream& stream)
 
 void PdfImmediateWriter::EndAppendStream(PdfObjectStream& stream)
 {
-    auto fileStream = dynamic_cast<const PdfStreamedObjectStream*>(&stream);
+    auto fileStream = dynamic_cast<const PdfStreamedObjectStream*>(&stream.GetProvider());
     if (fileStream != nullptr)
     {
         // A PdfFileStream has to be opened before
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f942e18..c9e055c 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -391,9 +391,10 @@ PdfObjectInputStream::~PdfObjectInputStream()
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
+    : m_input(std::move(rhs.m_input)), m_MediaFilters(std::move(rhs.m_MediaFilters)),
+      m_MediaDecodeParms(std::move(rhs.m_MediaDecodeParms))
 {
     utls::move(rhs.m_stream, m_stream);
-    utls::move(rhs.m_MediaDecodeParms, m_MediaDecodeParms);
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
@@ -415,7 +416,17 @@ bool PdfObjectInputStream::readChar(char& ch)
 
 PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs) noexcept
 {
+    if (this == &rhs)
+        return *this;
+
+    // Unlock the stream that was being read
+    if (m_stream != nullptr)
+        m_stream->m_locked = false;
+
     utls::move(rhs.m_stream, m_stream);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
     return *this;
 }
 
@@ -460,12 +471,12 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 
         auto document = m_stream->GetParent().GetDocument();
         if (document != nullptr)
-            document->GetObjects().BeginAppendStream(*m_stream);
+            document->GetObjects().EndAppendStream(*m_stream);
     }
 }
 
 PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept
-    : m_filters(std::move(rhs.m_filters))
+    : m_filters(std::move(rhs.m_filters)), m_output(std::move(rhs.m_output))
 {
     utls::move(rhs.m_stream, m_stream);
 }
@@ -529,6 +540,11 @@ void PdfObjectOutputStream::flush()
 
 PdfObjectOutputStream& PdfObjectOutputStream::operator=(PdfObjectOutputStream&& rhs) noexcept
 {
+    if (this == &rhs)
+        return *this;
+
+    // Complete the stream that was being written
+    PdfObjectOutputStream previous(std::move(*this));
     utls::move(rhs.m_stream, m_stream);
     m_output = std::move(rhs.m_output);
     m_filters = std::move(rhs.m_filters);
-- 
2.43.0


From e478e0b96f719f9fa9cf4ef7ac7a93ea0a9142d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 022/223] fix: keep the data of streams that are compressed
 when saving

The empty compressed stream was written instead of the data.
---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index c416c83..b71ecdc 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -252,7 +252,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
-            stream.MoveFrom(*m_Stream);
+            m_Stream->MoveFrom(stream);
         }
 
         // Set length if it's not handled by the underlying provider
-- 
2.43.0


From 5664ccf97c61c0b4c3b1b4c66097251e5d9e5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 023/223] fix: keep the filters of images that were set encoded

The stream didn't know about them: the data couldn't be decoded until the
image was saved and loaded again, and was compressed once more when saving,
replacing the description of its filters.
---
 src/pdfmm/base/PdfImage.cpp      | 5 ++++-
 src/pdfmm/base/PdfObject.cpp     | 1 +
 src/pdfmm/base/PdfObjectStream.h | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 138abe2..b539540 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -369,7 +369,8 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
         dict.AddKey("ColorSpace", info.ColorSpaceArray);
     }
 
-    GetObject().GetOrCreateStream().SetData(stream, true);
+    auto& objectStream = GetObject().GetOrCreateStream();
+    objectStream.SetData(stream, true);
 
     // If the filter list is supplied, set it now after stream writing
     if (info.Filters.size() == 1)
@@ -385,6 +386,8 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
 
         dict.AddKey(PdfName::KeyFilter, arrFilters);
     }
+
+    objectStream.m_Filters = info.Filters;
 }
 
 void PdfImage::LoadFromFile(const string_view& filepath)
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b71ecdc..e73dd1c 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -240,6 +240,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         const PdfObject* metadataObj;
         if ((writeMode & PdfWriteFlags::NoFlateCompress) == PdfWriteFlags::None
             && m_Stream->GetFilters().size() == 0
+            && !m_Variant.GetDictionary().HasKey(PdfName::KeyFilter)
             && (m_Document == nullptr 
                 || (metadataObj = m_Document->GetCatalog().GetMetadataObject()) == nullptr
                 || m_IndirectReference != metadataObj->GetIndirectReference()))
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 07f8c0e..76ca9a8 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -88,6 +88,7 @@ class PDFMM_API PdfObjectStream final
     friend class PdfObjectInputStream;
     friend class PdfObjectOutputStream;
     friend class PdfImmediateWriter;
+    friend class PdfImage;
 
 private:
     /** Create a new PdfObjectStream object which has a parent PdfObject.
-- 
2.43.0


From 2895a3ea567524815c5bbd5428dedc5eb81b501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 024/223] fix: white space inside the end of data marker of
 ASCII85Decode streams

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 18c4656..faa1c08 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -446,8 +446,17 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
     // everything that follows it is ignored
     while (len != 0 && m_eod != 2)
     {
-        if (m_eod == 1 && *buffer != '>')
-            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+        if (m_eod == 1)
+        {
+            if (*buffer == '>')
+                m_eod = 2;
+            else if (!PdfTokenizer::IsWhitespace(*buffer))
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
+            len--;
+            buffer++;
+            continue;
+        }
 
         switch (*buffer)
         {
@@ -476,12 +485,6 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
             case '~':
                 m_eod = 1;
                 break;
-            case '>':
-                if (m_eod != 1)
-                    PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-
-                m_eod = 2;
-                break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
                 break;
-- 
2.43.0


From d8cd572ef6d4d30216edfd4220016371da9eeab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 025/223] fix: mark objects as modified when their streams are
 copied or moved

---
 src/pdfmm/base/PdfObjectStream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index c9e055c..b7f50d0 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -211,6 +211,9 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
         rhs.m_Provider->Clear();
     }
 
+    m_Parent->SetDirty();
+    rhs.m_Parent->SetDirty();
+
     // Fix the /Filter and /DecodeParms keys for
     // both objects after the stream has been moved
     auto& lhsDict = m_Parent->GetDictionary();
@@ -249,6 +252,8 @@ void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
         this->SetData(stream, true);
     }
 
+    m_Parent->SetDirty();
+
     // Copy the /Filter and /DecodeParms keys
     auto& lhsDict = m_Parent->GetDictionary();
     auto& rhsDict = rhs.m_Parent->GetDictionary();
-- 
2.43.0


From ff1e3090d3f0a30f3720adee26c6b02cd9d6a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 026/223] fix: overflow of the row size of predictors

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 33 ++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index faa1c08..5c5c496 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -31,17 +31,27 @@ class PdfPredictorDecoder
 public:
     PdfPredictorDecoder(const PdfDictionary& decodeParms)
     {
+        int64_t colors = decodeParms.FindKeyAs<int64_t>("Colors", 1);
+        int64_t bitsPerComponent = decodeParms.FindKeyAs<int64_t>("BitsPerComponent", 8);
+        int64_t columnCount = decodeParms.FindKeyAs<int64_t>("Columns", 1);
         m_Predictor = static_cast<int>(decodeParms.FindKeyAs<int64_t>("Predictor", 1));
-        m_Colors = static_cast<int>(decodeParms.FindKeyAs<int64_t>("Colors", 1));
-        m_BitsPerComponent = static_cast<int>(decodeParms.FindKeyAs<int64_t>("BitsPerComponent", 8));
-        m_ColumnCount = static_cast<int>(decodeParms.FindKeyAs<int64_t>("Columns", 1));
         m_EarlyChange = static_cast<int>(decodeParms.FindKeyAs<int64_t>("EarlyChange", 1));
 
         // check that input values are in range (CVE-2018-20797)
         // ISO 32000-2008 specifies these values as all 1 or greater
         // negative values for m_nColumns / m_nColors / m_nBPC result in huge podofo_calloc
-        if (m_ColumnCount < 1 || m_Colors < 1 || m_BitsPerComponent < 1)
+        // and limits the bits per component to 16. Also check for overflow on buffer sizes
+        constexpr int64_t MaxBits = (int64_t)std::numeric_limits<int>::max() - 7;
+        if (columnCount < 1 || colors < 1 || bitsPerComponent < 1 || bitsPerComponent > 16
+            || colors > MaxBits / bitsPerComponent
+            || columnCount > MaxBits / (colors * bitsPerComponent))
+        {
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+        }
+
+        m_Colors = static_cast<int>(colors);
+        m_BitsPerComponent = static_cast<int>(bitsPerComponent);
+        m_ColumnCount = static_cast<int>(columnCount);
 
         if (m_Predictor >= 10)
         {
@@ -56,20 +66,9 @@ public:
 
         m_CurrRowIndex = 0;
 
-        // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
-        if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
-            || utls::DoesMultiplicationOverflow(m_ColumnCount, m_BitsPerComponent * m_Colors))
-        {
-            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-        }
-
         // NOTE: Pixels and rows are rounded up to whole bytes
-        m_BytesPerPixel = (int)(((int64_t)m_BitsPerComponent * m_Colors + 7) >> 3);
-        m_Rows = (int)(((int64_t)m_ColumnCount * m_Colors * m_BitsPerComponent + 7) >> 3);
-
-        // check that computed allocation sizes are > 0 (CVE-2018-20797)
-        if (m_Rows < 1 || m_BitsPerComponent < 1)
-            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+        m_BytesPerPixel = (m_BitsPerComponent * m_Colors + 7) >> 3;
+        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent + 7) >> 3;
 
         m_Prev.resize(m_Rows);
         memset(m_Prev.data(), 0, sizeof(char) * m_Rows);
-- 
2.43.0


From 2447b2c0353e5a32a987fdf1b9cdf53a033deb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 027/223] fix: predictor left by a failed decoding

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 5c5c496..b895c2c 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -606,6 +606,8 @@ void PdfFlateFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_stream.zfree = Z_NULL;
     m_stream.opaque = Z_NULL;
 
+    // NOTE: The previous decoding may have failed
+    m_Predictor.reset();
     if (decodeParms != nullptr)
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
 
@@ -771,6 +773,8 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_Eod = false;
     m_HasPrevious = false;
 
+    // NOTE: The previous decoding may have failed
+    m_Predictor.reset();
     if (decodeParms != nullptr)
     {
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
-- 
2.43.0


From add8fac7afe6a7451018003c58a598d8d1c62060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 028/223] fix: release the zlib state when Flate decoding fails
 or is abandoned

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 15 +++++++++++++++
 src/pdfmm/private/PdfFiltersPrivate.h   |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index b895c2c..64de176 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -543,8 +543,22 @@ PdfFlateFilter::PdfFlateFilter()
     memset(&m_stream, 0, sizeof(m_stream));
 }
 
+PdfFlateFilter::~PdfFlateFilter()
+{
+    releaseStream();
+}
+
+// NOTE: Encoding or decoding may have failed or been
+// abandoned. zlib ignores streams not in use for that purpose
+void PdfFlateFilter::releaseStream()
+{
+    (void)inflateEnd(&m_stream);
+    (void)deflateEnd(&m_stream);
+}
+
 void PdfFlateFilter::BeginEncodeImpl()
 {
+    releaseStream();
     m_stream.zalloc = Z_NULL;
     m_stream.zfree = Z_NULL;
     m_stream.opaque = Z_NULL;
@@ -602,6 +616,7 @@ void PdfFlateFilter::EndEncodeImpl()
 
 void PdfFlateFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 {
+    releaseStream();
     m_stream.zalloc = Z_NULL;
     m_stream.zfree = Z_NULL;
     m_stream.opaque = Z_NULL;
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 27f32d5..355da2a 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -98,6 +98,8 @@ class PdfFlateFilter final : public PdfFilter
 public:
     PdfFlateFilter();
 
+    ~PdfFlateFilter();
+
     inline bool CanEncode() const override { return true; }
 
     void BeginEncodeImpl() override;
@@ -119,6 +121,8 @@ public:
 private:
     void EncodeBlockInternal(const char* buffer, size_t len, int nMode);
 
+    void releaseStream();
+
 private:
     unsigned char m_buffer[BUFFER_SIZE];
 
-- 
2.43.0


From 9ec4a9be1ad5dd2414eb48b846a55d65d0c1b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 029/223] fix: reading of streams with indirect filters

---
 src/pdfmm/base/PdfParserObject.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 14ba48d..80271a3 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -215,7 +215,6 @@ void PdfParserObject::parseStream()
     }
 
 ReadStream:
-    m_device->Seek(streamOffset);	// reset it before reading!
     if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
     {
         // If metadata is not encrypted the Filter is set to "Crypt"
@@ -232,15 +231,19 @@ ReadStream:
         }
     }
 
+    // NOTE: Resolving the filters can load other objects from the same device
+    auto filters = PdfFilterFactory::CreateFilterList(*this);
+    m_device->Seek(streamOffset);	// reset it before reading!
+
     // Set stream raw data without marking the object dirty
     if (m_Encrypt != nullptr)
     {
         auto input = m_Encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
-        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), std::move(filters));
     }
     else
     {
-        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), std::move(filters));
     }
 }
 
-- 
2.43.0


From eb511a19cf7b070a0db95bf009707e30d68298c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:28 +0000
Subject: [PATCH 030/223] fix: entries of /XRefStm streams of hybrid-reference
 files

The objects hidden in hybrid-reference files have free entries in the
xref table, so the entries found in the /XRefStm stream were ignored and
the objects were missing
---
 src/pdfmm/base/PdfParser.cpp | 15 +++++++++++++++
 src/pdfmm/base/PdfParser.h   |  1 +
 2 files changed, 16 insertions(+)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..27e6b98 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -330,6 +330,8 @@ void PdfParser::ReadXRefContents(InputStreamDevice& device, size_t offset, bool
         m_visitedXRefOffsets.insert(offset);
     }
 
+    m_tableFreeEntries.clear();
+
     size_t currPosition = device.GetPosition();
     device.Seek(0, SeekDirection::End);
     size_t fileSize = device.GetPosition();
@@ -532,6 +534,8 @@ void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObje
             entry.Generation = generation;
             entry.Type = type;
             entry.Parsed = true;
+            if (type == XRefEntryType::Free)
+                m_tableFreeEntries.push_back(objIndex);
         }
 
         index++;
@@ -575,8 +579,19 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
     if (readOnlyTrailer)
         return;
 
+    // In hybrid-reference files the entries of the hidden objects
+    // are free in the xref table: the entries of the /XRefStm
+    // stream have the precedence over them
+    auto hiddenEntries = std::move(m_tableFreeEntries);
+    m_tableFreeEntries.clear();
+    for (unsigned index : hiddenEntries)
+        m_entries[index].Parsed = false;
+
     xrefObjTrailer->ReadXRefTable();
 
+    for (unsigned index : hiddenEntries)
+        m_entries[index].Parsed = true;
+
     // Check for a previous XRefStm or xref table
     size_t previousOffset;
     if (xrefObjTrailer->TryGetPreviousOffset(previousOffset) && previousOffset != offset)
diff --git a/src/pdfmm/base/PdfParser.h b/src/pdfmm/base/PdfParser.h
index b7872af..3b0adea 100644
--- a/src/pdfmm/base/PdfParser.h
+++ b/src/pdfmm/base/PdfParser.h
@@ -353,6 +353,7 @@ private:
     unsigned m_IncrementalUpdateCount;
 
     std::set<size_t> m_visitedXRefOffsets;
+    std::vector<unsigned> m_tableFreeEntries; // Free entries of the last read xref table
 };
 
 };
-- 
2.43.0


From ef957d140495db1d206db09f9e42e6d64faf4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:28 +0000
Subject: [PATCH 031/223] fix: generation of free entries incremented at every
 loading

---
 src/pdfmm/base/PdfParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 27e6b98..de4e6f2 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -767,9 +767,10 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
                 case XRefEntryType::Free:
                 {
                     // NOTE: We don't need entry.ObjectNumber, which is supposed to be
-                    // the entry of the next free object
+                    // the entry of the next free object. The generation is
+                    // already the one to be used when the number is reused
                     if (i != 0)
-                        m_Objects->SafeAddFreeObject(PdfReference(i, entry.Generation));
+                        m_Objects->TryAddFreeObject(PdfReference(i, (uint16_t)std::min(entry.Generation, (uint32_t)65535)));
 
                     break;
                 }
-- 
2.43.0


From 8a0167f2672b484f1564b7fca71cc0255c159de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 032/223] fix: object numbers truncated to 16 bits

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..a21fe38 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -192,7 +192,7 @@ PdfReference PdfIndirectObjectList::getNextFreeObject()
     }
 
     // If no free objects are available, create a new object with generation 0
-    uint16_t nextObjectNum = static_cast<uint16_t>(m_ObjectCount);
+    uint32_t nextObjectNum = static_cast<uint32_t>(m_ObjectCount);
     while (true)
     {
         if ((size_t)(nextObjectNum + 1) == MaxReserveSize)
-- 
2.43.0


From 3362c463440a8b80a00cdc6e37f68c4888b091b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 033/223] fix: free numbers and object streams survive clearing
 the objects

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index a21fe38..e69c4ec 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -110,6 +110,9 @@ void PdfIndirectObjectList::Clear()
         delete obj;
 
     m_Objects.clear();
+    m_FreeObjects.clear();
+    m_unavailableObjects.clear();
+    m_objectStreams.clear();
     m_ObjectCount = 1;
     m_StreamFactory = nullptr;
 }
-- 
2.43.0


From f65ab16dab8ae7f2f1deee5d0b3e82851eb7339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 034/223] fix: ReplaceObject with missing objects and document
 of the replacement

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index e69c4ec..b8095c4 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -160,13 +160,15 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
     auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end())
+    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
     obj->SetIndirectReference(ref);
+    obj->SetDocument(m_Document);
+    obj->setDirty();
     pushObject(node, obj);
     return ret;
 }
-- 
2.43.0


From 35d5854650a2ebc6ad517827e08d0592900e7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 035/223] fix: deleted objects with the maximum generation

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 src/pdfmm/base/PdfIndirectObjectList.h   | 6 ++++++
 src/pdfmm/base/PdfWriter.cpp             | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index b8095c4..d5e4ee6 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -279,7 +279,7 @@ int32_t PdfIndirectObjectList::tryAddFreeObject(uint32_t objnum, uint32_t gennum
     // NOTE: gennum is uint32 to accomodate overflows from callers
     if (gennum >= MaxXRefGenerationNum)
     {
-        m_unavailableObjects.insert(gennum);
+        m_unavailableObjects.insert(objnum);
         return -1;
     }
 
diff --git a/src/pdfmm/base/PdfIndirectObjectList.h b/src/pdfmm/base/PdfIndirectObjectList.h
index 5ccba27..f3bde27 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.h
+++ b/src/pdfmm/base/PdfIndirectObjectList.h
@@ -363,6 +363,12 @@ public:
      */
     inline const ReferenceList& GetFreeObjects() const { return m_FreeObjects; }
 
+    /**
+     * \returns the numbers of deleted objects that can't be reused
+     * because they reached the maximum generation
+     */
+    inline const std::set<uint32_t>& GetUnavailableObjects() const { return m_unavailableObjects; }
+
 private:
     PdfDocument* m_Document;
     bool m_CanReuseObjectNumbers;
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index f6ba8d3..e02a03f 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -180,6 +180,9 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
     {
         xref.AddFreeObject(freeObjectRef);
     }
+
+    for (uint32_t objectNum : objects.GetUnavailableObjects())
+        xref.AddFreeObject(PdfReference(objectNum, 65535));
 }
 
 void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySizeKey) const
-- 
2.43.0


From d1ed6886e8ece553ad38b7a2024b46dfdef5f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 036/223] fix: xref without the head of the free list when
 object 1 is missing

---
 src/pdfmm/base/PdfWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index e02a03f..7d9d88d 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -96,8 +96,7 @@ void PdfWriter::Write(OutputStreamDevice& device)
 
         WritePdfObjects(device, *m_Objects, *xRef);
 
-        if (m_IncrementalUpdate)
-            xRef->SetFirstEmptyBlock();
+        xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
     }
-- 
2.43.0


From 4456df467268f3bb15b3d9eaeffabf9753fd2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 037/223] fix: stack overflow when collecting garbage over long
 chains of objects

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 70 ++++++++++++------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index d5e4ee6..9ae0227 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -376,46 +376,48 @@ void PdfIndirectObjectList::CollectGarbage()
 
 void PdfIndirectObjectList::visitObject(const PdfObject& obj, unordered_set<PdfReference>& referencedObjects)
 {
-    if (obj.IsIndirect())
+    // NOTE: Don't recurse, chains of objects can be arbitrarily long
+    vector<const PdfObject*> objectsToVisit = { &obj };
+    while (!objectsToVisit.empty())
     {
-        // Try to check if the object has been already visited
-        auto inserted = referencedObjects.insert(obj.GetIndirectReference());
-        if (!inserted.second)
+        auto& currObj = *objectsToVisit.back();
+        objectsToVisit.pop_back();
+        if (currObj.IsIndirect())
         {
-            // The object has been visited, just return
-            return;
+            // Try to check if the object has been already visited
+            auto inserted = referencedObjects.insert(currObj.GetIndirectReference());
+            if (!inserted.second)
+                continue;
         }
-    }
 
-    switch (obj.GetDataType())
-    {
-        case PdfDataType::Reference:
+        switch (currObj.GetDataType())
         {
-            auto childObj = GetObject(obj.GetReference());
-            if (childObj == nullptr)
+            case PdfDataType::Reference:
+            {
+                auto childObj = GetObject(currObj.GetReference());
+                if (childObj != nullptr)
+                    objectsToVisit.push_back(childObj);
                 break;
-
-            visitObject(*childObj, referencedObjects);
-            break;
-        }
-        case PdfDataType::Array:
-        {
-            auto& arr = obj.GetArray();
-            for (auto& child : arr)
-                visitObject(child, referencedObjects);
-            break;
-        }
-        case PdfDataType::Dictionary:
-        {
-            auto& dict = obj.GetDictionary();
-            for (auto& pair : dict)
-                visitObject(pair.second, referencedObjects);
-            break;
-        }
-        default:
-        {
-            // Nothing to do
-            break;
+            }
+            case PdfDataType::Array:
+            {
+                auto& arr = currObj.GetArray();
+                for (auto& child : arr)
+                    objectsToVisit.push_back(&child);
+                break;
+            }
+            case PdfDataType::Dictionary:
+            {
+                auto& dict = currObj.GetDictionary();
+                for (auto& pair : dict)
+                    objectsToVisit.push_back(&pair.second);
+                break;
+            }
+            default:
+            {
+                // Nothing to do
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From 09f69467fa5b804e17d32a3365a50307918fa353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 038/223] fix: catalog version earlier than the header version

---
 src/pdfmm/base/PdfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index de4e6f2..8aeaeeb 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -925,7 +925,8 @@ void PdfParser::UpdateDocumentVersion()
             if (versionObj.IsName())
             {
                 auto version = mm::GetPdfVersion(versionObj.GetName().GetString());
-                if (version != PdfVersion::Unknown)
+                // The version of the catalog is considered only if later than the header
+                if (version != PdfVersion::Unknown && version > m_PdfVersion)
                 {
                     mm::LogMessage(PdfLogSeverity::Information,
                         "Updating version from {} to {}",
-- 
2.43.0


From 4a805c5629c5ec472ca731884efdb89720c1f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 039/223] fix: fields of xref streams wider than 4 bytes

---
 src/pdfmm/base/PdfXRefStreamParserObject.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.h b/src/pdfmm/base/PdfXRefStreamParserObject.h
index d9e4a68..63ab275 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.h
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.h
@@ -27,7 +27,7 @@ class PDFMM_API PdfXRefStreamParserObject final : public PdfParserObject
     friend class PdfParser;
 
     static constexpr unsigned W_ARRAY_SIZE = 3;
-    static constexpr unsigned W_MAX_BYTES = 4;
+    static constexpr unsigned W_MAX_BYTES = 8;
 
 private:
     /** Parse the object data from the given file handle starting at
-- 
2.43.0


From ded0255021e3c0373b593e44a509008fab37b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 040/223] fix: truncated xref streams and negative /Index read
 out of bounds

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 29 +++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 472ffd9..b7bde1a 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -106,6 +106,18 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         }
     }
 
+    for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
+    {
+        if (wArray[i] > W_MAX_BYTES)
+        {
+            mm::LogMessage(PdfLogSeverity::Error,
+                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
+                wArray[i], W_MAX_BYTES);
+
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
+        }
+    }
+
     const size_t entryLen = static_cast<size_t>(wArray[0] + wArray[1] + wArray[2]);
 
     charbuff buffer;
@@ -118,11 +130,17 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         int64_t firstObj = *it++;
         int64_t count = *it++;
 
+        if (firstObj < 0 || count < 0 || numeric_limits<int64_t>::max() - firstObj < count)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef stream /Index");
+
         m_entries->Enlarge(firstObj + count);
         for (unsigned index = 0; index < (unsigned)count; index++)
         {
-            if ((size_t)(cursor - buffer.data()) >= buffer.size())
+            size_t offset = (size_t)(cursor - buffer.data());
+            if (offset >= buffer.size())
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid count in XRef stream");
+            if (buffer.size() - offset < entryLen)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Truncated entry in XRef stream");
 
             unsigned objIndex = (unsigned)firstObj + index;
             auto& entry = (*m_entries)[objIndex];
@@ -165,15 +183,6 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
     uint64_t entryRaw[W_ARRAY_SIZE];
     for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
     {
-        if (wArray[i] > W_MAX_BYTES)
-        {
-            mm::LogMessage(PdfLogSeverity::Error,
-                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
-                wArray[i], W_MAX_BYTES);
-
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
-        }
-
         entryRaw[i] = 0;
         for (int64_t z = W_MAX_BYTES - wArray[i]; z < W_MAX_BYTES; z++)
         {
-- 
2.43.0


From 08c74a3638488d47043941d9e4cdd9b787b42ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:33 +0000
Subject: [PATCH 041/223] fix: consecutive incremental updates of the same
 document

The second update referred to the original xref section, skipping the
section of the first update, so its changes were lost
---
 src/pdfmm/base/PdfMemDocument.cpp | 2 ++
 src/pdfmm/base/PdfWriter.cpp      | 2 ++
 src/pdfmm/base/PdfWriter.h        | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9aa21f3..44db321 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -288,6 +288,8 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
     {
         device.Seek(0, SeekDirection::End);
         writer.Write(device);
+        // Following updates refer to the one just written
+        m_PrevXRefOffset = writer.GetXRefOffset();
     }
     catch (PdfError& e)
     {
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 7d9d88d..3275c68 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -37,6 +37,7 @@ PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, P
     m_SaveOptions(PdfSaveOptions::None),
     m_WriteFlags(PdfWriteFlags::None),
     m_PrevXRefOffset(0),
+    m_XRefOffset(-1),
     m_IncrementalUpdate(false),
     m_rewriteXRefTable(false)
 {
@@ -99,6 +100,7 @@ void PdfWriter::Write(OutputStreamDevice& device)
         xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
+        m_XRefOffset = (int64_t)xRef->GetOffset();
     }
     catch (PdfError& e)
     {
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index 6b4ce3e..79a20d9 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -114,6 +114,11 @@ public:
      */
     inline int64_t GetPrevXRefOffset() const { return m_PrevXRefOffset; }
 
+    /** Get the offset of the XRef table, or stream, that was written
+     *  \returns the offset, or -1 if it has not been written yet
+     */
+    inline int64_t GetXRefOffset() const { return m_XRefOffset; }
+
     /** Set whether writing an incremental update.
      *  Default is false.
      *  \param incrementalUpdate if true an incremental update will be written
@@ -190,6 +195,7 @@ private:
     PdfString m_identifier;
     PdfString m_originalIdentifier; // used for incremental update
     int64_t m_PrevXRefOffset;
+    int64_t m_XRefOffset;
     bool m_IncrementalUpdate;
     bool m_rewriteXRefTable; // Only used if incremental update
 };
-- 
2.43.0


From f116e54ea27f8c6c8db451e5dff63ac609b14b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 042/223] fix: crash when loading all the streams of files with
 object streams

---
 src/pdfmm/base/PdfParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 8aeaeeb..17be36d 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -818,8 +818,10 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
         // in a second pass, or (if demand loading is enabled) defer it for later.
         for (auto objToLoad : *m_Objects)
         {
+            // Objects of object streams are not parser objects
             auto obj = dynamic_cast<PdfParserObject*>(objToLoad);
-            obj->ParseStream();
+            if (obj != nullptr)
+                obj->ParseStream();
         }
     }
 
-- 
2.43.0


From c6c823df8bcced16b2a1d6d88e3309efcab44d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 043/223] fix: version written again by every incremental
 update

---
 src/pdfmm/base/PdfMemDocument.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 44db321..964a599 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -290,6 +290,7 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
         writer.Write(device);
         // Following updates refer to the one just written
         m_PrevXRefOffset = writer.GetXRefOffset();
+        m_InitialVersion = this->GetPdfVersion();
     }
     catch (PdfError& e)
     {
-- 
2.43.0


From 9b0b1eea792960aa901821a7e7832faa69b4505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 044/223] fix: inverted comparison of nullable values, setters
 of the metadata did nothing

---
 src/pdfmm/common/nullable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 1fbb79e..99b2fa1 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -241,12 +241,12 @@ namespace COMMON_NAMESPACE
     bool operator==(const nullable<std::decay_t<T2>>& lhs, const nullable<T2&>& rhs)
     {
         if (lhs.m_hasValue != rhs.m_hasValue)
-            return true;
+            return false;
 
         if (lhs.m_hasValue)
-            return lhs.m_value != *rhs.m_value;
+            return lhs.m_value == *rhs.m_value;
         else
-            return false;
+            return true;
     }
 
     template <typename T2>
-- 
2.43.0


From 4ba2d568e440f691df33eff9ce7fb9f938482550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 045/223] fix: author not set before the metadata was read

---
 src/pdfmm/base/PdfMetadata.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 3b41bd0..95bc023 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -44,6 +44,7 @@ const nullable<PdfString>& PdfMetadata::GetTitle() const
 
 void PdfMetadata::SetAuthor(nullable<const PdfString&> author, bool syncXMP)
 {
+    ensureInitialized();
     if (m_metadata.Author == author)
         return;
 
-- 
2.43.0


From 8e7f9863cd88bb1fa0e630953dba5c1f2a69f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 046/223] fix: deletions lost when disabling the reuse of
 object numbers

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 9ae0227..da3f85d 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -486,7 +486,13 @@ void PdfIndirectObjectList::SetCanReuseObjectNumbers(bool canReuseObjectNumbers)
     m_CanReuseObjectNumbers = canReuseObjectNumbers;
 
     if (!m_CanReuseObjectNumbers)
+    {
+        // The numbers of deleted objects must still be written as free
+        for (auto& ref : m_FreeObjects)
+            m_unavailableObjects.insert(ref.ObjectNumber());
+
         m_FreeObjects.clear();
+    }
 }
 
 unsigned PdfIndirectObjectList::GetSize() const
-- 
2.43.0


From 6c386189bac77cac267cac16fb56e9887a9a48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 047/223] fix: file names of attachments followed by stray
 bytes (missing string termination)

---
 src/pdfmm/private/Format.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/Format.h b/src/pdfmm/private/Format.h
index 250d8d0..110fffe 100644
--- a/src/pdfmm/private/Format.h
+++ b/src/pdfmm/private/Format.h
@@ -27,7 +27,11 @@ namespace utls
     template <typename... Args>
     inline static void FormatTo(char* dst, size_t n, const std::string_view& fmt, const Args&... args)
     {
-        std::format_to_n(dst, n, fmt, args...);
+        if (n == 0)
+            return;
+
+        auto res = std::format_to_n(dst, n - 1, fmt, args...);
+        *res.out = '\0';
     }
 
     /** Helper class. Use COMMON_FORMAT macro instead
-- 
2.43.0


From b7c45e1960ca62faa3b66041742811c2a7d73946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 048/223] fix: use after free of unused fonts when saving

---
 src/pdfmm/base/PdfMemDocument.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 964a599..e818c94 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -307,13 +307,15 @@ void PdfMemDocument::beforeWrite(PdfSaveOptions opts)
         GetMetadata().SetModifyDate(PdfDate::LocalNow(), true);
     }
 
+    // NOTE: Embed the fonts before collecting garbage, which
+    // deletes the objects of the fonts that are not used
+    GetFonts().EmbedFonts();
+
     if ((opts & PdfSaveOptions::NoCollectGarbage) ==
         PdfSaveOptions::None)
     {
         CollectGarbage();
     }
-
-    GetFonts().EmbedFonts();
 }
 
 void PdfMemDocument::SetEncrypted(const string_view& userPassword, const string_view& ownerPassword,
-- 
2.43.0


From 6949ba1b6e5d9daf30b1a7a1c3b073d446c48534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:56 +0000
Subject: [PATCH 049/223] fix: saving documents whose /Info refers to a missing
 object

---
 src/pdfmm/base/PdfWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 3275c68..a4aed42 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -247,7 +247,8 @@ void PdfWriter::CreateFileIdentifier(PdfString& identifier, const PdfObject& tra
     // create a dictionary with some unique information.
     // This dictionary is based on the PDF files information
     // dictionary if it exists.
-    auto infoObj = trailer.GetDictionary().GetKey("Info");
+    // NOTE: A reference to a missing object is just a missing dictionary
+    auto infoObj = trailer.GetDictionary().FindKey("Info");
     if (infoObj == nullptr)
     {
         auto now = PdfDate::LocalNow();
-- 
2.43.0


From c6420d92218f241f020893bca748e6ade0b9418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 050/223] fix: lookups of indirect objects in linear time

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 26 +++++++++++++-----------
 src/pdfmm/base/PdfIndirectObjectList.h   | 11 +++++++---
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index da3f85d..650eab4 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -65,7 +65,6 @@ private:
 PdfIndirectObjectList::PdfIndirectObjectList() :
     m_Document(nullptr),
     m_CanReuseObjectNumbers(true),
-    m_Objects(CompareObject),
     m_ObjectCount(0),
     m_StreamFactory(nullptr)
 {
@@ -74,7 +73,6 @@ PdfIndirectObjectList::PdfIndirectObjectList() :
 PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document) :
     m_Document(&document),
     m_CanReuseObjectNumbers(true),
-    m_Objects(CompareObject),
     m_ObjectCount(1),
     m_StreamFactory(nullptr)
 {
@@ -83,7 +81,6 @@ PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document) :
 PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document, const PdfIndirectObjectList& rhs)  :
     m_Document(&document),
     m_CanReuseObjectNumbers(rhs.m_CanReuseObjectNumbers),
-    m_Objects(CompareObject),
     m_ObjectCount(rhs.m_ObjectCount),
     m_FreeObjects(rhs.m_FreeObjects),
     m_unavailableObjects(rhs.m_unavailableObjects),
@@ -128,8 +125,8 @@ PdfObject& PdfIndirectObjectList::MustGetObject(const PdfReference& ref) const
 
 PdfObject* PdfIndirectObjectList::GetObject(const PdfReference& ref) const
 {
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         return nullptr;
 
     return *it;
@@ -142,8 +139,8 @@ unique_ptr<PdfObject> PdfIndirectObjectList::RemoveObject(const PdfReference& re
 
 unique_ptr<PdfObject> PdfIndirectObjectList::RemoveObject(const PdfReference& ref, bool markAsFree)
 {
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         return nullptr;
 
     return removeObject(it, markAsFree);
@@ -159,8 +156,8 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
     if (obj == nullptr)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
-    auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
+    auto it = m_Objects.find(ref);
+    if (it == m_Objects.end())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
@@ -353,7 +350,7 @@ void PdfIndirectObjectList::CollectGarbage()
     unordered_set<PdfReference> referencedOjects;
     visitObject(m_Document->GetTrailer().GetObject(), referencedOjects);
     vector<PdfObject*> objectsToDelete;
-    ObjectList newlist(CompareObject);
+    ObjectList newlist;
     for (PdfObject* obj : m_Objects)
     {
         auto& ref = obj->GetIndirectReference();
@@ -546,12 +543,17 @@ size_t PdfIndirectObjectList::size() const
     return m_Objects.size();
 }
 
-bool PdfIndirectObjectList::CompareObject(const PdfObject* p1, const PdfObject* p2)
+bool PdfIndirectObjectList::ObjectComparator::operator()(const PdfObject* p1, const PdfObject* p2) const
 {
     return *p1 < *p2;
 }
 
-bool PdfIndirectObjectList::CompareReference(const PdfObject* obj, const PdfReference& ref)
+bool PdfIndirectObjectList::ObjectComparator::operator()(const PdfObject* obj, const PdfReference& ref) const
 {
     return obj->GetIndirectReference() < ref;
 }
+
+bool PdfIndirectObjectList::ObjectComparator::operator()(const PdfReference& ref, const PdfObject* obj) const
+{
+    return ref < obj->GetIndirectReference();
+}
diff --git a/src/pdfmm/base/PdfIndirectObjectList.h b/src/pdfmm/base/PdfIndirectObjectList.h
index f3bde27..d69e27f 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.h
+++ b/src/pdfmm/base/PdfIndirectObjectList.h
@@ -38,11 +38,16 @@ class PDFMM_API PdfIndirectObjectList final
     friend class PdfImmediateWriter;
 
 private:
-    static bool CompareObject(const PdfObject* p1, const PdfObject* p2);
-    static bool CompareReference(const PdfObject* obj, const PdfReference& ref);
+    struct ObjectComparator
+    {
+        using is_transparent = std::true_type;
+        bool operator()(const PdfObject* p1, const PdfObject* p2) const;
+        bool operator()(const PdfObject* obj, const PdfReference& ref) const;
+        bool operator()(const PdfReference& ref, const PdfObject* obj) const;
+    };
 
 private:
-    using ObjectList = std::set<PdfObject*, decltype(CompareObject)*>;
+    using ObjectList = std::set<PdfObject*, ObjectComparator>;
 
 public:
     // An incomplete set of container typedefs, just enough to handle
-- 
2.43.0


From 25eea06efeef343574a1d099c349d6c129c08a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:05 +0000
Subject: [PATCH 051/223] fix: the null object constant was an empty dictionary

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index e73dd1c..19a7a92 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -18,7 +18,7 @@
 using namespace std;
 using namespace mm;
 
-PdfObject PdfObject::Null;
+PdfObject PdfObject::Null = PdfObject(PdfVariant());
 
 PdfObject::PdfObject()
     : PdfObject(PdfDictionary(), PdfReference(), false) { }
-- 
2.43.0


From 7ba03b998c53fea03f576fb33e22564337ceaeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 052/223] fix: endless recursion looking up inherited keys in
 cycles of parents

---
 src/pdfmm/base/PdfDictionary.cpp | 33 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 02ee92b..a407c8b 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -7,6 +7,8 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfDictionary.h"
 
+#include <unordered_set>
+
 #include "PdfOutputDevice.h"
 
 using namespace std;
@@ -152,26 +154,23 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
-    PdfObject* obj = findKey(key);
-    if (obj == nullptr)
+    // NOTE: Malformed documents can have cycles of parents
+    unordered_set<const PdfDictionary*> visited;
+    auto dict = this;
+    while (visited.insert(dict).second)
     {
-        PdfObject* parent = findKey("Parent");
-        if (parent == nullptr)
-        {
+        PdfObject* obj = dict->findKey(key);
+        if (obj != nullptr)
+            return obj;
+
+        PdfObject* parent = dict->findKey("Parent");
+        if (parent == nullptr || !parent->IsDictionary())
             return nullptr;
-        }
-        else
-        {
-            if (parent->IsDictionary())
-                return parent->GetDictionary().findKeyParent(key);
-            else
-                return nullptr;
-        }
-    }
-    else
-    {
-        return obj;
+
+        dict = &parent->GetDictionary();
     }
+
+    return nullptr;
 }
 
 bool PdfDictionary::HasKey(const string_view& key) const
-- 
2.43.0


From c1f1ff014ea192ee184563d8680623b4955e0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 053/223] fix: last digit of hex strings with an odd number of
 digits

---
 src/pdfmm/base/PdfString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 0d8dd8b..0ac2ba1 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -97,8 +97,8 @@ PdfString PdfString::FromHexData(const string_view& hexView, const PdfStatefulEn
     if (!low)
     {
         // an odd number of bytes was read,
-        // so the last byte is 0
-        buffer.push_back(decodedChar);
+        // so the last digit is 0
+        buffer.push_back((char)(decodedChar << 4));
     }
 
     if (encrypt.HasEncrypt())
-- 
2.43.0


From f41a38fbcfac6c9e4004919808ace079c5b21d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 054/223] fix: empty names followed by a comment

---
 src/pdfmm/base/PdfTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 109cd6c..2c5e287 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -632,9 +632,9 @@ void PdfTokenizer::ReadName(InputStreamDevice& device, PdfVariant& variant)
     // 10 0 obj / endobj
     // which stupid but legal PDF
     char ch;
-    if (!device.Peek(ch) || IsWhitespace(ch))
+    if (!device.Peek(ch) || IsWhitespace(ch) || ch == '%')
     {
-        // We have an empty PdfName
+        // We have an empty PdfName, possibly followed by a comment
         // NOTE: Delimeters are handled correctly by tryReadNextToken
         variant = PdfName();
         return;
-- 
2.43.0


From f8309e7fbff995612f889cf422ca2ecb443a8861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 055/223] fix: padding left in the strings of AES-256 encrypted
 documents

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 507a095..a8fc95f 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1757,6 +1757,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
             EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
             int lOutLen;
             EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_oeValue, 32);
+            EVP_CIPHER_CTX_reset(aes); // The engine is shared: restore the padding
         }
     }
     else
@@ -1774,6 +1775,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
         EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
         int lOutLen;
         EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_ueValue, 32);
+        EVP_CIPHER_CTX_reset(aes); // The engine is shared: restore the padding
     }
 
     // TODO Validate permissions (or not...)
-- 
2.43.0


From 955c840e2d335c192b331c179d745ff4ad2736fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 056/223] fix: length of the key of RC4 encrypted documents

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index a8fc95f..617d26c 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1116,6 +1116,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
             intKeyLength = intKeyLength - intKeyLength % 8;
             intKeyLength = (intKeyLength >= 40) ? ((intKeyLength <= 128) ? intKeyLength : 128) : 40;
             m_rValue = 3;
+            m_eKeyLength = static_cast<PdfKeyLength>(intKeyLength);
             m_keyLength = intKeyLength / 8;
             break;
         }
@@ -1123,6 +1124,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
         default:
         {
             m_rValue = 2;
+            m_eKeyLength = PdfKeyLength::L40;
             m_keyLength = 40 / 8;
             break;
         }
-- 
2.43.0


From 432c7d35b3ca9e62e8b11d8fdfd7256f815bbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 057/223] fix: documents without an owner password open as
 owner with an empty one

---
 src/pdfmm/base/PdfEncrypt.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 617d26c..37c3078 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1004,7 +1004,8 @@ void PdfEncryptRC4::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // NOTE: If there's no owner password the user password is used instead
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1241,7 +1242,8 @@ void PdfEncryptAESV2::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // NOTE: If there's no owner password the user password is used instead
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1665,7 +1667,8 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
     size_t userpswdLen;
     size_t ownerpswdLen;
     PreprocessPassword(m_userPass, userpswd, userpswdLen);
-    PreprocessPassword(m_ownerPass, ownerpswd, ownerpswdLen);
+    // NOTE: If there's no owner password the user password is used instead
+    PreprocessPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd, ownerpswdLen);
 
     // Compute encryption key
     ComputeEncryptionKey();
-- 
2.43.0


From 0abffa2f5004d74ba31ac8afd099b3c1130760b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 058/223] fix: predictable AES-256 file keys, salts and
 initialization vectors

---
 src/pdfmm/base/PdfEncrypt.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 37c3078..87ed2f3 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -27,6 +27,7 @@
 #include <openssl/opensslconf.h>
 #include <openssl/md5.h>
 #include <openssl/evp.h>
+#include <openssl/rand.h>
 
 using namespace std;
 using namespace mm;
@@ -82,6 +83,13 @@ struct OpenSSLInit
 #define AES_IV_LENGTH 16
 #define AES_BLOCK_SIZE 16
 
+// Fill the buffer with cryptographically secure random bytes
+static void generateRandom(unsigned char* buffer, size_t size)
+{
+    if (RAND_bytes(buffer, (int)size) != 1)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error generating random data");
+}
+
 namespace mm
 {
 
@@ -1487,11 +1495,8 @@ void PdfEncryptSHABase::ComputeUserKey(const unsigned char* userpswd, size_t len
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandom(vSalt, 8);
+    generateRandom(kSalt, 8);
 
     // Generate hash for U
     unsigned char hashValue[32];
@@ -1535,11 +1540,8 @@ void PdfEncryptSHABase::ComputeOwnerKey(const unsigned char* ownerpswd, size_t l
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandom(vSalt, 8);
+    generateRandom(kSalt, 8);
 
     // Generate hash for O
     unsigned char hashValue[32];
@@ -1595,11 +1597,7 @@ void PdfEncryptSHABase::PreprocessPassword(const string_view& password, unsigned
 
 void PdfEncryptSHABase::ComputeEncryptionKey()
 {
-    // Seed once for all
-    srand((unsigned)time(nullptr));
-
-    for (unsigned i = 0; i < m_keyLength; i++)
-        m_encryptionKey[i] = rand() % 255;
+    generateRandom(m_encryptionKey, m_keyLength);
 }
     
 bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const std::string_view& password,
@@ -1623,8 +1621,7 @@ bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const s
     
 void PdfEncryptSHABase::GenerateInitialVector(unsigned char iv[]) const
 {
-    for (int i = 0; i < AES_IV_LENGTH; i++)
-        iv[i] = rand() % 255;
+    generateRandom(iv, AES_IV_LENGTH);
 }
     
 void PdfEncryptSHABase::CreateEncryptionDictionary(PdfDictionary& dictionary) const
-- 
2.43.0


From 953b1f4a1441c8e3ad0ff83aae4b5be98d574cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 059/223] fix: same initialization vector for everything in
 AES-128 encrypted documents

---
 src/pdfmm/base/PdfEncrypt.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 87ed2f3..63ed5ba 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -943,8 +943,7 @@ void PdfEncryptMD5Base::GetMD5Binary(const unsigned char* data, unsigned length,
 
 void PdfEncryptMD5Base::GenerateInitialVector(unsigned char iv[]) const
 {
-    GetMD5Binary(reinterpret_cast<const unsigned char*>(m_documentId.c_str()),
-        static_cast<unsigned>(m_documentId.length()), iv);
+    generateRandom(iv, AES_IV_LENGTH);
 }
     
 PdfString PdfEncryptMD5Base::GetMD5String(const unsigned char* buffer, unsigned length)
-- 
2.43.0


From 8a940e6ffe6d254d753e7ce2f975ac5630d41f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 060/223] fix: out of bounds writes and reads decrypting AES
 encrypted streams

---
 src/pdfmm/base/PdfEncrypt.cpp | 154 +++++++++++++++++++++-------------
 1 file changed, 94 insertions(+), 60 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 63ed5ba..b25db3a 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -289,7 +289,8 @@ public:
         m_inputEof(false),
         m_init(true),
         m_keyLen(keylen),
-        m_drainLeft(-1)
+        m_pendingPos(0),
+        m_pendingLen(0)
     {
         m_ctx = EVP_CIPHER_CTX_new();
         if (m_ctx == nullptr)
@@ -306,88 +307,119 @@ public:
 protected:
     size_t readBuffer(char* buffer, size_t len, bool& eof) override
     {
-        int outlen = 0;
-        size_t drainLen;
-        size_t read;
-        if (m_inputEof)
-            goto DrainBuffer;
-
-        int rc;
-        if (m_init)
+        size_t count = 0;
+        while (true)
         {
-            // Read the initialization vector separately first
-            char iv[AES_IV_LENGTH];
-            bool streameof;
-            read = ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof);
-            if (read != AES_IV_LENGTH)
-                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
-
-            const EVP_CIPHER* cipher;
-            switch (m_keyLen)
+            // Serve the decrypted data first
+            size_t pendingCount = std::min(len - count, m_pendingLen - m_pendingPos);
+            std::memcpy(buffer + count, m_pending.data() + m_pendingPos, pendingCount);
+            m_pendingPos += pendingCount;
+            count += pendingCount;
+
+            if (m_pendingPos != m_pendingLen)
             {
-                case (size_t)PdfKeyLength::L128 / 8:
-                {
-                    cipher = EVP_aes_128_cbc();
-                    break;
-                }
-#ifdef PDFMM_HAVE_LIBIDN
-                case (size_t)PdfKeyLength::L256 / 8:
-                {
-                    cipher = EVP_aes_256_cbc();
-                    break;
-                }
-#endif
-                default:
-                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Invalid AES key length");
+                eof = false;
+                return count;
             }
 
-            rc = EVP_DecryptInit_ex(m_ctx, cipher, nullptr, m_key, (unsigned char*)iv);
-            if (rc != 1)
-                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
+            if (m_inputEof)
+            {
+                eof = true;
+                return count;
+            }
 
-            m_inputLen -= AES_IV_LENGTH;
+            if (count == len)
+            {
+                eof = false;
+                return count;
+            }
+
+            decryptBlock(len - count);
+        }
+    }
+
+private:
+    // Read and decrypt some more data from the input stream
+    void decryptBlock(size_t len)
+    {
+        m_pendingPos = 0;
+        m_pendingLen = 0;
+
+        if (m_init)
+        {
             m_init = false;
+            if (m_inputLen == 0)
+            {
+                // There's nothing, not even the initialization vector
+                m_inputEof = true;
+                return;
+            }
+
+            init();
         }
 
-        bool streameof;
-        read = ReadBuffer(*m_InputStream, buffer, std::min(len, m_inputLen), streameof);
+        len = std::min(len, m_inputLen);
+        m_input.resize(len);
+        bool streameof = false;
+        size_t read = len == 0 ? 0 : ReadBuffer(*m_InputStream, m_input.data(), len, streameof);
         m_inputLen -= read;
 
         // Quote openssl.org: "the decrypted data buffer out passed to EVP_DecryptUpdate() should have sufficient room
         //  for (inl + cipher_block_size) bytes unless the cipher block size is 1 in which case inl bytes is sufficient."
-        // So we need to create a buffer that is bigger than len.
-        m_tempBuffer.resize(len + AES_BLOCK_SIZE);
-        rc = EVP_DecryptUpdate(m_ctx, m_tempBuffer.data(), &outlen, (unsigned char*)buffer, (int)read);
-
+        // Add room for the final block as well
+        m_pending.resize(read + AES_BLOCK_SIZE * 2);
+        int outlen;
+        int rc = EVP_DecryptUpdate(m_ctx, m_pending.data(), &outlen, (unsigned char*)m_input.data(), (int)read);
         if (rc != 1)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data");
 
-        PDFMM_ASSERT((size_t)outlen <= len);
-        std::memcpy(buffer, m_tempBuffer.data(), (size_t)outlen);
-
+        m_pendingLen = (size_t)outlen;
         if (m_inputLen == 0 || streameof)
         {
             m_inputEof = true;
-
-            int drainLeft;
-            rc = EVP_DecryptFinal_ex(m_ctx, m_tempBuffer.data(), &drainLeft);
+            rc = EVP_DecryptFinal_ex(m_ctx, m_pending.data() + m_pendingLen, &outlen);
             if (rc != 1)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data padding");
 
-            m_drainLeft = (size_t)drainLeft;
-            goto DrainBuffer;
+            m_pendingLen += (size_t)outlen;
+        }
+    }
+
+    void init()
+    {
+        // Read the initialization vector separately first
+        char iv[AES_IV_LENGTH];
+        bool streameof;
+        if (m_inputLen < AES_IV_LENGTH
+            || ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof) != AES_IV_LENGTH)
+        {
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
         }
 
-        return outlen;
+        const EVP_CIPHER* cipher;
+        switch (m_keyLen)
+        {
+            case (size_t)PdfKeyLength::L128 / 8:
+            {
+                cipher = EVP_aes_128_cbc();
+                break;
+            }
+#ifdef PDFMM_HAVE_LIBIDN
+            case (size_t)PdfKeyLength::L256 / 8:
+            {
+                cipher = EVP_aes_256_cbc();
+                break;
+            }
+#endif
+            default:
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Invalid AES key length");
+        }
 
-    DrainBuffer:
-        drainLen = std::min(len - outlen, m_drainLeft);
-        std::memcpy(buffer + outlen, m_tempBuffer.data(), drainLen);
-        m_drainLeft -= (int)drainLen;
-        if (m_drainLeft == 0)
-            eof = true;
+        int rc = EVP_DecryptInit_ex(m_ctx, cipher, nullptr, m_key, (unsigned char*)iv);
+        if (rc != 1)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
 
-        return outlen + drainLen;
+        m_inputLen -= AES_IV_LENGTH;
     }
 
 private:
@@ -398,8 +430,10 @@ private:
     bool m_init;
     unsigned char m_key[32];
     unsigned m_keyLen;
-    vector<unsigned char> m_tempBuffer;
-    size_t m_drainLeft;
+    vector<char> m_input;
+    vector<unsigned char> m_pending;
+    size_t m_pendingPos;
+    size_t m_pendingLen;
 };
 
 }
-- 
2.43.0


From 45a2f5a0a8a1673f44822fd5bde8b5f0389a95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 061/223] fix: decrypting strings shorter than the
 initialization vector

---
 src/pdfmm/base/PdfEncrypt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index b25db3a..2ad3812 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1932,7 +1932,8 @@ void PdfEncrypt::DecryptTo(charbuff& out, const bufferview& view, const PdfRefer
     // It was found like this in PdfString and PdfTokenizer
     // Fix it so it will allocate the exact amount of memory
     // needed, including RC4
-    size_t outBufferLen = view.size() - this->CalculateStreamOffset();
+    size_t offset = this->CalculateStreamOffset();
+    size_t outBufferLen = view.size() < offset ? 0 : view.size() - offset;
     out.resize(outBufferLen + 16 - (outBufferLen % 16));
     this->Decrypt(view.data(), view.size(), objref, out.data(), outBufferLen);
     out.resize(outBufferLen);
-- 
2.43.0


From b9982534ded9d2fd433993265328bb59781d81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 062/223] fix: use after free setting the encryption of a
 loaded encrypted document

---
 src/pdfmm/base/PdfMemDocument.cpp | 6 +++++-
 src/pdfmm/base/PdfMemDocument.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index e818c94..aef357e 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -79,6 +79,7 @@ void PdfMemDocument::clear()
     m_HasXRefStream = false;
     m_PrevXRefOffset = -1;
     m_Encrypt = nullptr;
+    m_LoadEncrypt = nullptr;
     m_device = nullptr;
 }
 
@@ -104,7 +105,10 @@ void PdfMemDocument::initFromParser(PdfParser& parser)
     {
         // All PdfParser instances have a pointer to a PdfEncrypt object.
         // So we have to take ownership of it (command the parser to give it).
-        m_Encrypt = parser.TakeEncrypt();
+        // NOTE: The objects keep using it to load, even when another
+        // one is later set to encrypt the document
+        m_LoadEncrypt = parser.TakeEncrypt();
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*m_LoadEncrypt);
     }
 
     Init();
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index b500748..6ac51e0 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -252,6 +252,7 @@ private:
     bool m_HasXRefStream;
     int64_t m_PrevXRefOffset;
     std::unique_ptr<PdfEncrypt> m_Encrypt;
+    std::unique_ptr<PdfEncrypt> m_LoadEncrypt; // Decrypts the objects that are still to be loaded
     std::shared_ptr<InputStreamDevice> m_device;
 };
 
-- 
2.43.0


From 826417ab193686cdb59eb2cada58c2061213e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 063/223] fix: copies of encrypted documents

---
 src/pdfmm/base/PdfMemDocument.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index aef357e..7762c5e 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -62,9 +62,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_HasXRefStream(rhs.m_HasXRefStream),
     m_PrevXRefOffset(rhs.m_PrevXRefOffset)
 {
-    auto encryptObj = GetTrailer().GetDictionary().FindKey("Encrypt");
-    if (encryptObj != nullptr)
-        m_Encrypt = PdfEncrypt::CreateFromObject(*encryptObj);
+    if (rhs.m_Encrypt != nullptr)
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*rhs.m_Encrypt);
 }
 
 void PdfMemDocument::Clear()
-- 
2.43.0


From 22c58148e84105538ce541cb26c64dd474a144e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 064/223] fix: saved or updated encrypted documents lose their
 passwords

---
 src/pdfmm/base/PdfEncrypt.cpp | 14 ++++++++++++--
 src/pdfmm/base/PdfEncrypt.h   | 10 ++++++++++
 src/pdfmm/base/PdfWriter.cpp  | 21 +++++++++++++++------
 src/pdfmm/base/PdfWriter.h    |  2 ++
 4 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 2ad3812..5f99974 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -442,12 +442,20 @@ PdfEncrypt::~PdfEncrypt() { }
 
 void PdfEncrypt::GenerateEncryptionKey(const PdfString& documentId)
 {
+    m_authenticated = false;
     GenerateEncryptionKey(documentId.GetRawData());
 }
 
 bool PdfEncrypt::Authenticate(const string_view& password, const PdfString& documentId)
 {
-    return Authenticate(password, documentId.GetRawData());
+    m_authenticated = Authenticate(password, documentId.GetRawData());
+    m_documentId = documentId.GetRawData();
+    return m_authenticated;
+}
+
+bool PdfEncrypt::IsAuthenticatedFor(const PdfString& documentId) const
+{
+    return m_authenticated && m_documentId == documentId.GetRawData();
 }
 
 PdfEncryptAlgorithm PdfEncrypt::GetEnabledEncryptionAlgorithms()
@@ -624,7 +632,8 @@ PdfEncrypt::PdfEncrypt() :
     m_keyLength(0),
     m_rValue(0),
     m_pValue(PdfPermissions::None),
-    m_EncryptMetadata(true)
+    m_EncryptMetadata(true),
+    m_authenticated(false)
 {
     memset(m_uValue, 0, 48);
     memset(m_oValue, 0, 48);
@@ -645,6 +654,7 @@ PdfEncrypt::PdfEncrypt(const PdfEncrypt& rhs)
     m_userPass = rhs.m_userPass;
     m_ownerPass = rhs.m_ownerPass;
     m_EncryptMetadata = rhs.m_EncryptMetadata;
+    m_authenticated = rhs.m_authenticated;
 }
 
 bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index d4cb626..93890ed 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -234,6 +234,15 @@ public:
      */
     bool Authenticate(const std::string_view& password, const PdfString& documentId);
 
+    /** Check if this object was successfully authenticated for the
+     *  document with the given id, so that it has already got its encryption key
+     *
+     *  \param documentId the documentId of the PDF file
+     *
+     *  \see Authenticate
+     */
+    bool IsAuthenticatedFor(const PdfString& documentId) const;
+
     /** Get the encryption algorithm of this object.
      * \returns the PdfEncryptAlgorithm of this object
      */
@@ -400,6 +409,7 @@ protected:
     bool m_EncryptMetadata;            // Is metadata encrypted
 
 private:
+    bool m_authenticated;              // True if the encryption key comes from an authentication
     static PdfEncryptAlgorithm s_EnabledEncryptionAlgorithms; // Or'ed int containing the enabled encryption algorithms
 };
 
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index a4aed42..4be57d0 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -34,6 +34,7 @@ PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, P
     m_Version(version),
     m_UseXRefStream(false),
     m_EncryptObj(nullptr),
+    m_KeepIdentifier(false),
     m_SaveOptions(PdfSaveOptions::None),
     m_WriteFlags(PdfWriteFlags::None),
     m_PrevXRefOffset(0),
@@ -77,7 +78,11 @@ void PdfWriter::Write(OutputStreamDevice& device)
     // setup encrypt dictionary
     if (m_Encrypt != nullptr)
     {
-        m_Encrypt->GenerateEncryptionKey(m_identifier);
+        // NOTE: The encryption of a loaded document must be kept, as just one of the
+        // passwords may be known. The encryption key depends on the identifier
+        m_KeepIdentifier = m_Encrypt->IsAuthenticatedFor(m_originalIdentifier);
+        if (!m_KeepIdentifier)
+            m_Encrypt->GenerateEncryptionKey(getPermanentIdentifier());
 
         // Add our own Encryption dictionary
         m_EncryptObj = &m_Objects->CreateDictionaryObject();
@@ -204,11 +209,7 @@ void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySize
 
         PdfArray array;
         // The ID is the same unless the PDF was incrementally updated
-        if (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty())
-            array.Add(m_originalIdentifier);
-        else
-            array.Add(m_identifier);
-
+        array.Add(getPermanentIdentifier());
         array.Add(m_identifier);
 
         // finally add the key to the trailer dictionary
@@ -222,6 +223,14 @@ void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySize
     }
 }
 
+const PdfString& PdfWriter::getPermanentIdentifier() const
+{
+    if (m_KeepIdentifier || (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty()))
+        return m_originalIdentifier;
+    else
+        return m_identifier;
+}
+
 void PdfWriter::CreateFileIdentifier(PdfString& identifier, const PdfObject& trailer, PdfString* originalIdentifier)
 {
     NullStreamDevice length;
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index 79a20d9..40494d2 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -172,6 +172,7 @@ protected:
     PdfEncrypt* GetEncrypt() { return m_Encrypt.get(); }
     PdfObject* GetEncryptObj() { return m_EncryptObj; }
     const PdfString& GetIdentifier() { return m_identifier; }
+    const PdfString& getPermanentIdentifier() const;
     void SetIdentifier(const PdfString& identifier) { m_identifier = identifier; }
     void SetEncryptObj(PdfObject& obj);
 
@@ -194,6 +195,7 @@ private:
 
     PdfString m_identifier;
     PdfString m_originalIdentifier; // used for incremental update
+    bool m_KeepIdentifier;          // keep the original identifier, as the encryption key depends on it
     int64_t m_PrevXRefOffset;
     int64_t m_XRefOffset;
     bool m_IncrementalUpdate;
-- 
2.43.0


From 8e4fa7ed080ab47f2a180b3a12f3a411ebabcce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 065/223] fix: streams that must not be encrypted, as
 unencrypted metadata

---
 src/pdfmm/base/PdfEncrypt.cpp      | 68 ++++++++++++++++++++++++++++--
 src/pdfmm/base/PdfEncrypt.h        |  7 ++-
 src/pdfmm/base/PdfObject.cpp       | 10 +++--
 src/pdfmm/base/PdfParserObject.cpp | 18 +-------
 4 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 5f99974..fbb0c9b 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -12,6 +12,7 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfEncrypt.h"
 
+#include "PdfArray.h"
 #include "PdfDictionary.h"
 #include "PdfFilter.h"
 
@@ -538,7 +539,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             length = 0;
 
         const PdfObject* encryptMetadataObj = encryptObj.GetDictionary().GetKey("EncryptMetadata");
-        if (encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
+        if (lV >= 4 && encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
             encryptMetadata = encryptMetadataObj->GetBool();
 
         auto stmfObj = encryptObj.GetDictionary().GetKey("StmF");
@@ -597,7 +598,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             PdfString ueValue = encryptObj.GetDictionary().GetKey("UE")->GetString();
 
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(oValue, oeValue, uValue,
-                ueValue, pValue, permsValue, (PdfAESV3Revision)rValue));
+                ueValue, pValue, permsValue, (PdfAESV3Revision)rValue, encryptMetadata));
         }
 #endif // PDFMM_HAVE_LIBIDN
         else
@@ -1695,6 +1696,8 @@ void PdfEncryptSHABase::CreateEncryptionDictionary(PdfDictionary& dictionary) co
     dictionary.AddKey("StmF", PdfName("StdCF"));
 
     dictionary.AddKey("P", PdfVariant(static_cast<int64_t>(this->GetPValue())));
+    if (!m_EncryptMetadata)
+        dictionary.AddKey("EncryptMetadata", PdfVariant(false));
 }
     
 void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
@@ -1884,8 +1887,10 @@ PdfEncryptAESV3::PdfEncryptAESV3(const PdfEncrypt& rhs)
     : PdfEncryptSHABase(rhs) {}
 
 PdfEncryptAESV3::PdfEncryptAESV3(PdfString oValue, PdfString oeValue, PdfString uValue,
-    PdfString ueValue, PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision revision) : PdfEncryptAESBase()
+    PdfString ueValue, PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision revision,
+    bool encryptMetadata) : PdfEncryptAESBase()
 {
+    m_EncryptMetadata = encryptMetadata;
     m_pValue = pValue;
     m_Algorithm = revision == PdfAESV3Revision::R6 ? PdfEncryptAlgorithm::AESV3R6 : PdfEncryptAlgorithm::AESV3;
 
@@ -1929,6 +1934,63 @@ int PdfEncrypt::GetKeyLength() const
     return m_keyLength * 8;
 }
 
+// Get if there's a crypt filter in the filters of the stream, and its name
+static bool tryGetCryptFilterName(const PdfDictionary& dict, PdfName& name)
+{
+    auto filterObj = dict.FindKey(PdfName::KeyFilter);
+    if (filterObj == nullptr)
+        return false;
+
+    auto paramsObj = dict.FindKey("DecodeParms");
+    if (filterObj->IsArray())
+    {
+        auto& filters = filterObj->GetArray();
+        unsigned i = 0;
+        for (; i < filters.GetSize(); i++)
+        {
+            auto filter = filters.FindAt(i);
+            if (filter != nullptr && filter->IsName() && filter->GetName() == "Crypt")
+                break;
+        }
+
+        if (i == filters.GetSize())
+            return false;
+
+        if (paramsObj != nullptr && paramsObj->IsArray())
+            paramsObj = i < paramsObj->GetArray().GetSize() ? paramsObj->GetArray().FindAt(i) : nullptr;
+    }
+    else if (!filterObj->IsName() || filterObj->GetName() != "Crypt")
+    {
+        return false;
+    }
+
+    const PdfObject* nameObj;
+    if (paramsObj != nullptr && paramsObj->IsDictionary()
+        && (nameObj = paramsObj->GetDictionary().FindKey("Name")) != nullptr && nameObj->IsName())
+    {
+        name = nameObj->GetName();
+    }
+    else
+    {
+        name = PdfName("Identity");
+    }
+
+    return true;
+}
+
+bool PdfEncrypt::IsStreamEncrypted(const PdfDictionary& dict) const
+{
+    PdfName name;
+    if (tryGetCryptFilterName(dict, name))
+        return name != "Identity";
+
+    if (m_EncryptMetadata)
+        return true;
+
+    auto typeObj = dict.FindKey(PdfName::KeyType);
+    return typeObj == nullptr || !typeObj->IsName() || typeObj->GetName() != "Metadata";
+}
+
 void PdfEncrypt::EncryptTo(charbuff& out, const bufferview& view, const PdfReference& objref) const
 {
     size_t outputLen = this->CalculateStreamLength(view.size());
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index 93890ed..f6d4acc 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -360,6 +360,11 @@ public:
      */
     bool IsMetadataEncrypted() const { return m_EncryptMetadata; }
 
+    /** Check if the data of a stream has to be encrypted
+     *  \param dict the dictionary of the stream
+     */
+    bool IsStreamEncrypted(const PdfDictionary& dict) const;
+
     /** Encrypt a character span
      */
     void EncryptTo(charbuff& out, const bufferview& view, const PdfReference& objref) const;
@@ -634,7 +639,7 @@ class PdfEncryptAESV3 : public PdfEncryptSHABase, public PdfEncryptAESBase
 {
 public:
     PdfEncryptAESV3(PdfString oValue, PdfString oeValue, PdfString uValue, PdfString ueValue,
-        PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision rev);
+        PdfPermissions pValue, PdfString permsValue, PdfAESV3Revision rev, bool encryptMetadata);
     PdfEncryptAESV3(const std::string_view& userPassword, const std::string_view& ownerPassword,
         PdfAESV3Revision rev, PdfPermissions protection = PdfPermissions::Default);
     PdfEncryptAESV3(const PdfEncrypt& rhs);
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 19a7a92..7fb40e6 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -232,8 +232,12 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         }
     }
 
+    PdfStatefulEncrypt streamEncrypt;
     if (m_Stream != nullptr)
     {
+        if (encrypt_ != nullptr && encrypt_->IsStreamEncrypted(m_Variant.GetDictionary()))
+            streamEncrypt = encrypt;
+
         // Try to compress the flate compress the stream if it has no filters,
         // the compression is not disabled and it's not the /MetaData object,
         // which must be unfiltered as per PDF/A
@@ -260,8 +264,8 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         if (!m_Stream->GetProvider().IsLengthHandled())
         {
             size_t length = m_Stream->GetLength();
-            if (encrypt.HasEncrypt())
-                length = encrypt.CalculateStreamLength(length);
+            if (streamEncrypt.HasEncrypt())
+                length = streamEncrypt.CalculateStreamLength(length);
 
             // Add the key without triggering SetDirty
             const_cast<PdfObject&>(*this).m_Variant.GetDictionary()
@@ -273,7 +277,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     device.Write('\n');
 
     if (m_Stream != nullptr)
-        m_Stream->Write(device, encrypt);
+        m_Stream->Write(device, streamEncrypt);
 
     if (m_IndirectReference.IsIndirect())
         device.Write("endobj\n");
diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 80271a3..f5d8555 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -215,28 +215,14 @@ void PdfParserObject::parseStream()
     }
 
 ReadStream:
-    if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
-    {
-        // If metadata is not encrypted the Filter is set to "Crypt"
-        auto filterObj = this->m_Variant.GetDictionary().FindKey(PdfName::KeyFilter);
-        if (filterObj != nullptr && filterObj->IsArray())
-        {
-            auto& filters = filterObj->GetArray();
-            for (unsigned i = 0; i < filters.GetSize(); i++)
-            {
-                auto& obj = filters.MustFindAt(i);
-                if (obj.IsName() && obj.GetName() == "Crypt")
-                    m_Encrypt = nullptr;
-            }
-        }
-    }
+    bool encrypted = m_Encrypt != nullptr && m_Encrypt->IsStreamEncrypted(this->m_Variant.GetDictionary());
 
     // NOTE: Resolving the filters can load other objects from the same device
     auto filters = PdfFilterFactory::CreateFilterList(*this);
     m_device->Seek(streamOffset);	// reset it before reading!
 
     // Set stream raw data without marking the object dirty
-    if (m_Encrypt != nullptr)
+    if (encrypted)
     {
         auto input = m_Encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
         getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), std::move(filters));
-- 
2.43.0


From d8ae09d5685423eee6200e32cce307f1443ddae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 066/223] fix: streams with a Crypt filter

---
 src/pdfmm/base/PdfFilter.cpp            |  4 +++-
 src/pdfmm/private/PdfFiltersPrivate.cpp | 10 ++++++++++
 src/pdfmm/private/PdfFiltersPrivate.h   | 19 +++++++++++++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 55814fd..627536a 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -269,12 +269,14 @@ unique_ptr<PdfFilter> PdfFilterFactory::Create(PdfFilterType filterType)
         case PdfFilterType::RunLengthDecode:
             filter = new PdfRLEFilter();
             break;
+        case PdfFilterType::Crypt:
+            filter = new PdfCryptFilter();
+            break;
         case PdfFilterType::None:
         case PdfFilterType::DCTDecode:
         case PdfFilterType::CCITTFaxDecode:
         case PdfFilterType::JBIG2Decode:
         case PdfFilterType::JPXDecode:
-        case PdfFilterType::Crypt:
         default:
             break;
     }
diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 64de176..eaf0a25 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -687,6 +687,16 @@ void PdfFlateFilter::EndDecodeImpl()
 
 #pragma region PdfRLEFilter
 
+void PdfCryptFilter::EncodeBlockImpl(const char* buffer, size_t len)
+{
+    GetStream()->Write(buffer, len);
+}
+
+void PdfCryptFilter::DecodeBlockImpl(const char* buffer, size_t len)
+{
+    GetStream()->Write(buffer, len);
+}
+
 PdfRLEFilter::PdfRLEFilter()
     : m_CodeLen(0), m_Eod(false)
 {
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 355da2a..e350bf5 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -130,6 +130,25 @@ private:
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
 
+/** The Crypt filter.
+ *
+ *  The data of the streams is encrypted and decrypted when
+ *  they are written and read, so this lets the data pass through
+ */
+class PdfCryptFilter final : public PdfFilter
+{
+public:
+    inline bool CanEncode() const override { return true; }
+
+    void EncodeBlockImpl(const char* buffer, size_t len) override;
+
+    inline bool CanDecode() const override { return true; }
+
+    void DecodeBlockImpl(const char* buffer, size_t len) override;
+
+    inline PdfFilterType GetType() const override { return PdfFilterType::Crypt; }
+};
+
 /** The RLE filter.
  */
 class PdfRLEFilter final : public PdfFilter
-- 
2.43.0


From 5c193204bd8a9c65f4f2a69d394629d19abf89e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 067/223] fix: contents of signatures in encrypted documents

---
 src/pdfmm/base/PdfDictionary.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index a407c8b..a4e81c0 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -213,6 +213,11 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             device.Write('\n');
     }
 
+    // NOTE: "Contents" hex strings in /Type/Sig and /Type/DocTimeStamp dictionaries are never encrypted
+    auto type = getKey(PdfName::KeyType);
+    bool contentsUnencrypted = type != nullptr && type->IsName()
+        && (type->GetName() == "Sig" || type->GetName() == "DocTimeStamp");
+
     for (auto& pair : m_Map)
     {
         if (pair.first != PdfName::KeyType)
@@ -221,7 +226,16 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write(' '); // write a separator
 
-            pair.second.GetVariant().Write(device, writeMode, encrypt, buffer);
+            if (contentsUnencrypted && pair.first == PdfName::KeyContents
+                && pair.second.IsString() && pair.second.GetString().IsHex())
+            {
+                pair.second.GetVariant().Write(device, writeMode, { }, buffer);
+            }
+            else
+            {
+                pair.second.GetVariant().Write(device, writeMode, encrypt, buffer);
+            }
+
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write('\n');
         }
-- 
2.43.0


From 2b3aec6366c5ec5b4c090cc5bd83bf0b5c8401b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 068/223] fix: invalid or unsupported values in encryption
 dictionaries

---
 src/pdfmm/base/PdfEncrypt.cpp | 45 ++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index fbb0c9b..e1fe074 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -521,6 +521,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
     PdfString oValue;
     PdfString uValue;
     PdfName cfmName;
+    bool unsupportedCryptFilters = false;
     bool encryptMetadata = true;
 
     try
@@ -542,7 +543,18 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         if (lV >= 4 && encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
             encryptMetadata = encryptMetadataObj->GetBool();
 
+        // The same crypt filter must be used for everything
         auto stmfObj = encryptObj.GetDictionary().GetKey("StmF");
+        if (lV >= 4)
+        {
+            auto strfObj = encryptObj.GetDictionary().GetKey("StrF");
+            if (stmfObj == nullptr || !stmfObj->IsName() || stmfObj->GetName() == "Identity"
+                || strfObj == nullptr || !strfObj->IsName() || strfObj->GetName() != stmfObj->GetName())
+            {
+                unsupportedCryptFilters = true;
+            }
+        }
+
         if (stmfObj != nullptr && stmfObj->IsName())
         {
             const PdfObject* obj = encryptObj.GetDictionary().GetKey("CF");
@@ -564,14 +576,26 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         throw e;
     }
 
+    if (unsupportedCryptFilters)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedFilter, "Unsupported crypt filters in encryption dictionary");
+
+    // Check the length of the values to prevent reading beyond their end
+    size_t valueSize = lV >= 5 ? 48 : 32;
+    if (oValue.GetRawData().size() < valueSize || uValue.GetRawData().size() < valueSize)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid /O or /U in encryption dictionary");
+
     if ((lV == 1) && (rValue == 2 || rValue == 3)
         && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V1))
     {
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V1, (int)PdfKeyLength::L40, encryptMetadata));
     }
-    else if ((((lV == 2) && (rValue == 3)) || cfmName == "V2")
+    else if ((((lV == 2) && (rValue == 3)) || ((lV == 4) && (rValue == 4) && cfmName == "V2"))
         && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V2))
     {
+        // The default is 40 bits, but crypt filters use 128 bits keys
+        if (length == 0)
+            length = lV == 4 ? (int)PdfKeyLength::L128 : (int)PdfKeyLength::L40;
+
         // length is int64_t. Please make changes in encryption algorithms
         // Check key length length here to prevent
         // stack-based buffer over-read later in this file
@@ -579,23 +603,28 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         {
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too large for MD5");
         }
+        if (length < (int)PdfKeyLength::L40 || length % CHAR_BIT != 0)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid key length");
+
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V2, static_cast<int>(length), encryptMetadata));
     }
     else
     {
-        if ((lV == 4) && (rValue == 4)
+        if ((lV == 4) && (rValue == 4) && cfmName == "AESV2"
             && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV2))
         {
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV2(oValue, uValue, pValue, encryptMetadata));
         }
 #ifdef PDFMM_HAVE_LIBIDN
-        else if ((lV == 5) && (
+        else if ((lV == 5) && cfmName == "AESV3" && (
             (rValue == 5 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3))
             || (rValue == 6 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3R6))))
         {
-            PdfString permsValue = encryptObj.GetDictionary().GetKey("Perms")->GetString();
-            PdfString oeValue = encryptObj.GetDictionary().GetKey("OE")->GetString();
-            PdfString ueValue = encryptObj.GetDictionary().GetKey("UE")->GetString();
+            PdfString permsValue = encryptObj.GetDictionary().MustGetKey("Perms").GetString();
+            PdfString oeValue = encryptObj.GetDictionary().MustGetKey("OE").GetString();
+            PdfString ueValue = encryptObj.GetDictionary().MustGetKey("UE").GetString();
+            if (permsValue.GetRawData().size() < 16 || oeValue.GetRawData().size() < 32 || ueValue.GetRawData().size() < 32)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid /Perms, /OE or /UE in encryption dictionary");
 
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(oValue, oeValue, uValue,
                 ueValue, pValue, permsValue, (PdfAESV3Revision)rValue, encryptMetadata));
@@ -1013,7 +1042,7 @@ void PdfEncryptMD5Base::CreateEncryptionDictionary(PdfDictionary& dictionary) co
             stdCf.AddKey("CFM", PdfName("V2"));
         else
             stdCf.AddKey("CFM", PdfName("AESV2"));
-        stdCf.AddKey("Length", static_cast<int64_t>(16));
+        stdCf.AddKey("Length", static_cast<int64_t>(m_keyLength));
 
         dictionary.AddKey("O", PdfString::FromRaw({ reinterpret_cast<const char*>(this->GetOValue()), 32 }));
         dictionary.AddKey("U", PdfString::FromRaw({ reinterpret_cast<const char*>(this->GetUValue()), 32 }));
@@ -1027,7 +1056,7 @@ void PdfEncryptMD5Base::CreateEncryptionDictionary(PdfDictionary& dictionary) co
 
         dictionary.AddKey("V", static_cast<int64_t>(4));
         dictionary.AddKey("R", static_cast<int64_t>(4));
-        dictionary.AddKey("Length", static_cast<int64_t>(128));
+        dictionary.AddKey("Length", static_cast<int64_t>(m_keyLength * 8));
         if (!m_EncryptMetadata)
             dictionary.AddKey("EncryptMetadata", PdfVariant(false));
     }
-- 
2.43.0


From a0daad6d93d2fe15ef214ade3746dbc20d235c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 069/223] fix: old cross-reference streams encrypted in saved
 documents

---
 src/pdfmm/base/PdfObject.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 7fb40e6..defbf5c 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -212,6 +212,14 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     DelayedLoad();
     DelayedLoadStream();
 
+    if (encrypt_ != nullptr && m_Stream != nullptr)
+    {
+        // XRef streams, maybe left from the loaded document, are never encrypted
+        auto typeObj = m_Variant.GetDictionary().GetKey(PdfName::KeyType);
+        if (typeObj != nullptr && typeObj->IsName() && typeObj->GetName() == "XRef")
+            encrypt_ = nullptr;
+    }
+
     PdfStatefulEncrypt encrypt;
     if (encrypt_ != nullptr)
         encrypt = PdfStatefulEncrypt(*encrypt_, m_IndirectReference);
-- 
2.43.0


From 6d7f2f658dad624a4e3727e20a7dcac9ccc721cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 070/223] fix: null values hide inherited ones

---
 src/pdfmm/base/PdfDictionary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index a4e81c0..dbc1524 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -159,8 +159,9 @@ PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
     auto dict = this;
     while (visited.insert(dict).second)
     {
+        // NOTE: A null value is equivalent to a missing key
         PdfObject* obj = dict->findKey(key);
-        if (obj != nullptr)
+        if (obj != nullptr && !obj->IsNull())
             return obj;
 
         PdfObject* parent = dict->findKey("Parent");
-- 
2.43.0


From 4c8bda5e357ec16a5fae38a59f5a0f35124f5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 071/223] fix: rectangles with indirect coordinates

---
 src/pdfmm/base/PdfRect.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfRect.cpp b/src/pdfmm/base/PdfRect.cpp
index e929903..382d130 100644
--- a/src/pdfmm/base/PdfRect.cpp
+++ b/src/pdfmm/base/PdfRect.cpp
@@ -74,10 +74,11 @@ void PdfRect::FromArray(const PdfArray& arr)
 {
     if (arr.size() == 4)
     {
-        double x1 = arr[0].GetReal();
-        double y1 = arr[1].GetReal();
-        double x2 = arr[2].GetReal();
-        double y2 = arr[3].GetReal();
+        // NOTE: Coordinates can be indirect objects
+        double x1 = arr.MustFindAt(0).GetReal();
+        double y1 = arr.MustFindAt(1).GetReal();
+        double x2 = arr.MustFindAt(2).GetReal();
+        double y2 = arr.MustFindAt(3).GetReal();
 
         CreateRect(x1, y1, x2, y2, m_Left, m_Bottom, m_Width, m_Height);
     }
-- 
2.43.0


From 097d96ec7fc693db0331465298d668981512c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 072/223] fix: reading a page rotation that is not a number

---
 src/pdfmm/base/PdfPage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 04bc157..c6f2c7d 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -196,7 +196,7 @@ int PdfPage::GetRotationRaw() const
     int rot = 0;
 
     auto obj = GetDictionary().FindKeyParent("Rotate");
-    if (obj != nullptr && (obj->IsNumber() || obj->GetReal()))
+    if (obj != nullptr && obj->IsNumberOrReal())
         rot = static_cast<int>(obj->GetNumber());
 
     return rot;
-- 
2.43.0


From dfc931888c82035ad22cd90be1454ede8cd67199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 073/223] fix: resources inherited from other ancestors than
 the parent

---
 src/pdfmm/base/PdfPage.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index c6f2c7d..3b784d0 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -513,14 +513,15 @@ int normalize(int value, int start, int end)
 PdfResources* getResources(PdfObject& obj, const deque<PdfObject*>& listOfParents)
 {
     auto resources = obj.GetDictionary().FindKey("Resources");
-    if (resources == nullptr)
+
+    // Resources might be inherited: the last parent is the nearest
+    for (auto it = listOfParents.rbegin(); it != listOfParents.rend()
+        && (resources == nullptr || resources->IsNull()); it++)
     {
-        // Resources might be inherited
-        for (auto& parent : listOfParents)
-            resources = parent->GetDictionary().FindKey("Resources");
+        resources = (*it)->GetDictionary().FindKey("Resources");
     }
 
-    if (resources == nullptr)
+    if (resources == nullptr || resources->IsNull())
         return nullptr;
 
     return new PdfResources(*resources);
-- 
2.43.0


From fc7e5f913d941ba88da4d16d6478e1ce871157e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 074/223] fix: index of the pages after an inserted or removed
 one

---
 src/pdfmm/base/PdfPage.h            |  1 +
 src/pdfmm/base/PdfPageTreeCache.cpp | 12 ++++++++++++
 src/pdfmm/base/PdfPageTreeCache.h   |  4 ++++
 3 files changed, 17 insertions(+)

diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index e8950bd..a5df4d5 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -47,6 +47,7 @@ class PDFMM_API PdfPage final : public PdfDictionaryElement, public PdfCanvas
 {
     PDFMM_UNIT_TEST(PdfPageTest);
     friend class PdfPageCollection;
+    friend class PdfPageTreeCache;
 
 private:
     /** Create a new PdfPage object.
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index 46f6bad..ad1858d 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -67,6 +67,8 @@ void PdfPageTreeCache::InsertPlaceHolders(unsigned atIndex, unsigned count)
 
     for (unsigned i = 0; i < count; i++)
         m_PageObjs.insert(m_PageObjs.begin() + atIndex + i, static_cast<PdfPage*>(nullptr));
+
+    updateIndices(atIndex + count);
 }
 
 void PdfPageTreeCache::DeletePage(unsigned atIndex)
@@ -76,6 +78,7 @@ void PdfPageTreeCache::DeletePage(unsigned atIndex)
 
     delete m_PageObjs[atIndex];
     m_PageObjs.erase(m_PageObjs.begin() + atIndex);
+    updateIndices(atIndex);
 }
 
 void PdfPageTreeCache::ClearCache()
@@ -85,3 +88,12 @@ void PdfPageTreeCache::ClearCache()
 
     m_PageObjs.clear();
 }
+
+void PdfPageTreeCache::updateIndices(unsigned fromIndex)
+{
+    for (size_t i = fromIndex; i < m_PageObjs.size(); i++)
+    {
+        if (m_PageObjs[i] != nullptr)
+            m_PageObjs[i]->m_Index = (unsigned)i;
+    }
+}
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index cd01bf1..5b78a50 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -73,6 +73,10 @@ public:
      */
     void ClearCache();
 
+private:
+    // Update the index of the cached pages, starting from the given position
+    void updateIndices(unsigned fromIndex);
+
 private:
     List m_PageObjs;
 };
-- 
2.43.0


From dce433a258193d7a3eac74f46cb7a9f3ee74c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 075/223] fix: setting the size of a page changes other pages

---
 src/pdfmm/base/PdfPage.cpp | 83 +++++++++++++-------------------------
 src/pdfmm/base/PdfPage.h   |  2 +
 2 files changed, 29 insertions(+), 56 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 3b784d0..733e461 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -242,73 +242,44 @@ PdfField& PdfPage::createField(const string_view& name, const type_info& typeInf
 
 bool PdfPage::SetPageWidth(int newWidth)
 {
-    // Take advantage of inherited values - walking up the tree if necessary
-    auto mediaBoxObj = GetDictionary().FindKeyParent("MediaBox");
-
-    // assign the value of the box from the array
-    if (mediaBoxObj != nullptr && mediaBoxObj->IsArray())
-    {
-        auto& mediaBoxArr = mediaBoxObj->GetArray();
-
-        // in PdfRect::FromArray(), the Left value is subtracted from Width
-        double dLeftMediaBox = mediaBoxArr[0].GetReal();
-        mediaBoxArr[2] = PdfObject(newWidth + dLeftMediaBox);
-
-        // Take advantage of inherited values - walking up the tree if necessary
-        auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
-
-        if (cropBoxObj != nullptr && cropBoxObj->IsArray())
-        {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Left value is subtracted from Width
-            double dLeftCropBox = cropBoxArr[0].GetReal();
-            cropBoxArr[2] = PdfObject(newWidth + dLeftCropBox);
-            return true;
-        }
-        else
-        {
-            return false;
-        }
-    }
-    else
-    {
-        return false;
-    }
+    return setPageSize(newWidth, true);
 }
 
 bool PdfPage::SetPageHeight(int newHeight)
 {
-    // Take advantage of inherited values - walking up the tree if necessary
-    auto obj = GetDictionary().FindKeyParent("MediaBox");
+    return setPageSize(newHeight, false);
+}
 
-    // assign the value of the box from the array
-    if (obj != nullptr && obj->IsArray())
+bool PdfPage::setPageSize(int newSize, bool width)
+{
+    bool hasMediaBox = false;
+    for (auto box : { "MediaBox", "CropBox" })
     {
-        auto& mediaBoxArr = obj->GetArray();
-        // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-        double bottom = mediaBoxArr[1].GetReal();
-        mediaBoxArr[3] = PdfObject(newHeight + bottom);
-
         // Take advantage of inherited values - walking up the tree if necessary
-        auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
-
-        if (cropBoxObj != nullptr && cropBoxObj->IsArray())
-        {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-            double dBottomCropBox = cropBoxArr[1].GetReal();
-            cropBoxArr[3] = PdfObject(newHeight + dBottomCropBox);
-            return true;
-        }
-        else
+        auto obj = GetDictionary().FindKeyParent(box);
+        if (obj == nullptr || !obj->IsArray())
         {
+            if (hasMediaBox)
+                continue; // The /CropBox is optional
+
             return false;
         }
+
+        hasMediaBox = true;
+        PdfRect rect(obj->GetArray());
+        if (width)
+            rect.SetWidth(newSize);
+        else
+            rect.SetHeight(newSize);
+
+        // NOTE: Set the value on the page, as an inherited
+        // one is shared with other pages
+        PdfArray arr;
+        rect.ToArray(arr);
+        GetDictionary().AddKey(box, arr);
     }
-    else
-    {
-        return false;
-    }
+
+    return true;
 }
 
 void PdfPage::SetMediaBox(const PdfRect& size)
diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index a5df4d5..312f02e 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -213,6 +213,8 @@ private:
      */
     void initNewPage(const PdfRect& size);
 
+    bool setPageSize(int newSize, bool width);
+
     void ensureContentsCreated();
     void ensureResourcesCreated();
 
-- 
2.43.0


From ba5c6b55356ab63cbf270211e9989d483ca78341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 076/223] fix: moving a page copies the whole document and uses
 freed memory

---
 src/pdfmm/base/PdfPage.cpp           | 15 +------
 src/pdfmm/base/PdfPageCollection.cpp | 62 ++++++++++++++++++++++++++++
 src/pdfmm/base/PdfPageCollection.h   |  4 ++
 src/pdfmm/base/PdfPageTreeCache.cpp  |  9 ++++
 src/pdfmm/base/PdfPageTreeCache.h    |  6 +++
 5 files changed, 82 insertions(+), 14 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 733e461..4027bf5 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -212,20 +212,7 @@ void PdfPage::SetRotationRaw(int rotation)
 
 void PdfPage::MoveAt(unsigned index)
 {
-    // TODO: CHECK-ME FOR CORRECT WORKING
-    auto& doc = GetDocument();
-    auto& pages = doc.GetPages();
-    unsigned fromIndex = m_Index;
-    pages.InsertDocumentPageAt(index, doc, m_Index);
-    if (index < fromIndex)
-    {
-        // If we inserted the page before the old 
-        // position we have to increment the from position
-        fromIndex++;
-    }
-
-    pages.RemovePageAt(fromIndex);
-    m_Index = fromIndex;
+    GetDocument().GetPages().movePage(*this, index);
 }
 
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 8ac90ad..21a0f56 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -230,6 +230,68 @@ void PdfPageCollection::RemovePageAt(unsigned atIndex)
     GetDocument().GetCatalog().GetDictionary().RemoveKey("OpenAction");
 }
 
+void PdfPageCollection::movePage(PdfPage& page, unsigned toIndex)
+{
+    unsigned fromIndex = page.m_Index;
+    PdfObjectList parents;
+    auto& pageObj = page.GetObject();
+    if (this->getPageNode(fromIndex, this->GetRoot(), parents) != &pageObj)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    toIndex = std::min(toIndex, this->GetCount() - 1);
+    if (toIndex == fromIndex)
+        return;
+
+    // The page will likely have another parent: keep the values
+    // that it inherits from the current ones
+    auto& pageDict = pageObj.GetDictionary();
+    bool inheritsResources = false;
+    for (auto key : { "MediaBox", "CropBox", "Rotate", "Resources" })
+    {
+        auto value = pageDict.FindKey(key);
+        if (value != nullptr && !value->IsNull())
+            continue;
+
+        value = pageDict.FindKeyParent(key);
+        if (value == nullptr)
+            continue;
+
+        pageDict.AddKeyIndirectSafe(key, *value);
+        if (string_view(key) == "Resources")
+            inheritsResources = true;
+    }
+
+    auto parent = parents.back();
+    deletePageFromNode(*parent, parents, (unsigned)this->getPosInKids(pageObj, parent), pageObj);
+    m_cache.ReleasePage(fromIndex);
+    InsertPageAt(toIndex, pageObj);
+    m_cache.SetPage(toIndex, &page);
+    page.m_Index = toIndex;
+
+    // Don't inherit anything else from the new parents
+    auto hidesInherited = [&](const string_view& key)
+    {
+        auto value = pageDict.FindKey(key);
+        return (value == nullptr || value->IsNull()) && pageDict.FindKeyParent(key) != nullptr;
+    };
+    if (hidesInherited("Rotate"))
+        pageDict.AddKey("Rotate", PdfVariant(static_cast<int64_t>(0)));
+    if (hidesInherited("CropBox"))
+    {
+        PdfArray mediaBox;
+        page.GetMediaBox().ToArray(mediaBox);
+        pageDict.AddKey("CropBox", mediaBox);
+    }
+    if (hidesInherited("Resources"))
+    {
+        pageDict.AddKey("Resources", PdfDictionary());
+        inheritsResources = true;
+    }
+
+    if (inheritsResources)
+        page.m_Resources.reset(new PdfResources(pageDict.MustFindKey("Resources")));
+}
+
 PdfObject* PdfPageCollection::getPageNode(unsigned index, PdfObject& parent,
     PdfObjectList& parents)
 {
diff --git a/src/pdfmm/base/PdfPageCollection.h b/src/pdfmm/base/PdfPageCollection.h
index 2d19fc5..b04c436 100644
--- a/src/pdfmm/base/PdfPageCollection.h
+++ b/src/pdfmm/base/PdfPageCollection.h
@@ -138,6 +138,10 @@ private:
     PdfPage& getPage(unsigned index);
     PdfPage& getPage(const PdfReference& ref);
 
+    /** Move an existing page of this tree to the given index
+     */
+    void movePage(PdfPage& page, unsigned toIndex);
+
     PdfObject* getPageNode(unsigned index, PdfObject& parent, PdfObjectList& parents);
 
     unsigned getChildCount(const PdfObject& nodeObj) const;
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index ad1858d..f4cba5c 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -81,6 +81,15 @@ void PdfPageTreeCache::DeletePage(unsigned atIndex)
     updateIndices(atIndex);
 }
 
+void PdfPageTreeCache::ReleasePage(unsigned atIndex)
+{
+    if (atIndex >= m_PageObjs.size())
+        return;
+
+    m_PageObjs.erase(m_PageObjs.begin() + atIndex);
+    updateIndices(atIndex);
+}
+
 void PdfPageTreeCache::ClearCache()
 {
     for (auto page : m_PageObjs)
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index 5b78a50..3427b0f 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -67,6 +67,12 @@ public:
      */
     void DeletePage(unsigned atIndex);
 
+    /**
+     * Remove a PdfPage from the cache without deleting it
+     * \param atIndex index of the page
+     */
+    void ReleasePage(unsigned atIndex);
+
     /**
      * Clear cache, i.e. remove all elements from the
      * cache.
-- 
2.43.0


From 99b25e20d23f9bc28c23e6ae880eb0825cdb03d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 077/223] fix: bfrange destinations with more than one code
 point repeat the last one

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 11d39be..1f2699e 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -298,18 +298,13 @@ void handleRangeMapping(PdfCharCodeMap& map,
 {
     auto it = dstCodeLo.begin();
     auto end = dstCodeLo.end();
-    PDFMM_INVARIANT(it != end);
+    if (it == end)
+        return;
+
     char32_t back = dstCodeLo.back();
     vector<char32_t> newdstbase;
     // Compute a destination string that has all code points except the last one
-    if (dstCodeLo.size() != 1)
-    {
-        do
-        {
-            newdstbase.push_back(*it);
-            it++;
-        } while (it != end);
-    }
+    newdstbase.insert(newdstbase.end(), it, end - 1);
 
     // Compute new destination string with last chracter/code point incremented by one
     vector<char32_t> newdst;
-- 
2.43.0


From f2081f79205e3466aeae0683f67bb6b9c47c7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 078/223] fix: malformed codes and ranges in a CMap hang or
 read out of bounds

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 32 +++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 1f2699e..03c8449 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -29,6 +29,7 @@ static void readNextVariantSequence(PdfPostScriptTokenizer& tokenizer, InputStre
     PdfVariant& variant, const string_view& endSequenceKeyword, bool& endOfSequence);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits, unsigned char& codeSize);
+static unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi);
 static vector<char32_t> handleNameMapping(const PdfName& name);
 static vector<char32_t> handleStringMapping(const PdfString& str);
 static void handleRangeMapping(PdfCharCodeMap& map,
@@ -149,12 +150,12 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         uint32_t srcCodeLo = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsArray())
                         {
                             PdfArray& arr = var->GetArray();
-                            for (unsigned i = 0; i < rangeSize; i++)
+                            for (unsigned i = 0; i < rangeSize && i < arr.GetSize(); i++)
                             {
                                 auto& dst = arr[i];
                                 if (dst.TryGetString(str) && str.IsHex()) // pp. 475 PdfReference 1.7
@@ -231,7 +232,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, limits);
 
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         vector<char32_t> mappedCodes;
                         for (unsigned i = 0; i < rangeSize; i++)
                         {
@@ -251,7 +252,12 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                     vector<char32_t> mappedCodes;
                     for (int i = 0; i < charCount; i++)
                     {
-                        tokenizer.TryReadNext(device, tokenType, token, *var);
+                        if (!tokenizer.TryReadNext(device, tokenType, token, *var)
+                            || tokenType != PdfPostScriptTokenType::Variant)
+                        {
+                            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap unable to read a character code");
+                        }
+
                         unsigned char codeSize;
                         uint32_t srcCode = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
@@ -324,6 +330,9 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     if (var.IsNumber())
     {
         int64_t num = var.GetNumber();
+        if (num < 0 || num > numeric_limits<uint32_t>::max())
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "CMap character code is out of range");
+
         uint32_t ret = (uint32_t)num;
         if (num == 0)
         {
@@ -346,9 +355,12 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     uint32_t ret = 0;
     auto& rawstr = str.GetRawData();
     unsigned len = (unsigned)rawstr.length();
+    if (len == 0 || len > 4)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "CMap character code has an invalid length");
+
     for (unsigned i = 0; i < len; i++)
     {
-        uint8_t code = (uint8_t)rawstr[len - 1 - i];
+        uint32_t code = (uint8_t)rawstr[len - 1 - i];
         ret += code << i * 8;
     }
 
@@ -381,6 +393,16 @@ uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits)
     return getCodeFromVariant(var, limits, codeSize);
 }
 
+// Ranges are not allowed to be descending or to be
+// larger than all the codes of two bytes
+unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi)
+{
+    if (srcCodeHi < srcCodeLo || srcCodeHi - srcCodeLo > 0xFFFF)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "CMap range is not valid");
+
+    return srcCodeHi - srcCodeLo + 1;
+}
+
 vector<char32_t> handleNameMapping(const PdfName& name)
 {
     return handleUtf8String(name.GetString());
-- 
2.43.0


From 8106a8fe87d1b1315408b3a6383e91418732fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 079/223] fix: FontStretch given as a string dereferences an
 uninitialised pointer

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 75f7df3..e32650e 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -286,7 +286,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             if (stretchObj->TryGetName(name))
                 m_FontStretch = stretchFromString(name->GetString());
             else if (stretchObj->TryGetString(str))
-                m_FontStretch = stretchFromString(name->GetString());
+                m_FontStretch = stretchFromString(str->GetString());
             else
                 m_FontStretch = PdfFontStretch::Unknown;
         }
-- 
2.43.0


From ff2ebdb81a57aafdaec2133c64fe944ac813a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 080/223] fix: TrueType font without a descriptor dereferences
 a null pointer

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index e32650e..5ca35f0 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -58,7 +58,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             m_FontFileType = PdfFontFileType::Type3;
         }
 
-        if (descriptor == nullptr && m_FontFileType == PdfFontFileType::Type3)
+        if (descriptor == nullptr)
         {
             const PdfObject* obj;
             if (m_FontName.length() == 0 && (obj = font.GetDictionary().FindKey("Name")) != nullptr)
-- 
2.43.0


From fe9702ccb26ab586667a006ed31b7c3af52c1778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:05 +0000
Subject: [PATCH 081/223] fix: Type0 font with a dangling descendant
 dereferences a null pointer

---
 src/pdfmm/base/PdfFontFactory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfFontFactory.cpp b/src/pdfmm/base/PdfFontFactory.cpp
index 3c4577c..542cd67 100644
--- a/src/pdfmm/base/PdfFontFactory.cpp
+++ b/src/pdfmm/base/PdfFontFactory.cpp
@@ -103,6 +103,9 @@ bool PdfFont::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfFont>& font)
         if (descendants.size() != 0)
         {
             objFont = descendants.FindAt(0);
+            if (objFont == nullptr)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoObject, "Type0 Font: Missing descendant font");
+
             objDescriptor = objFont->GetDictionary().FindKey("FontDescriptor");
         }
 
-- 
2.43.0


From 589e0ecdb0c8039567f6ef634d35da654783e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 082/223] fix: CIDs out of range in /W overrun the widths or
 exhaust memory

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 5ca35f0..7664993 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -19,6 +19,7 @@ using namespace mm;
 using namespace std;
 
 static PdfFontStretch stretchFromString(const string_view& str);
+static unsigned getCID(const PdfObject& obj);
 
 PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObject* descriptor) :
     m_DefaultWidth(0),
@@ -198,7 +199,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             unsigned pos = 0;
             while (pos < widthsArr.GetSize())
             {
-                unsigned start = (unsigned)widthsArr[pos++].GetNumberLenient();
+                unsigned start = getCID(widthsArr[pos++]);
                 PdfObject* second = &widthsArr[pos];
                 if (second->IsReference())
                 {
@@ -220,9 +221,8 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
                 }
                 else
                 {
-                    unsigned end = (unsigned)widthsArr[pos++].GetNumberLenient();
+                    unsigned end = getCID(widthsArr[pos++]);
                     unsigned length = end + 1;
-                    PDFMM_ASSERT(length >= start);
                     if (length > m_Widths.size())
                         m_Widths.resize(length, m_DefaultWidth);
 
@@ -536,6 +536,16 @@ vector<double> PdfFontMetricsObject::getBBox(const PdfObject& obj)
     return ret;
 }
 
+// ISO 32000-1:2008, Annex C: "Maximum value of a CID (character identifier)" is 65535
+unsigned getCID(const PdfObject& obj)
+{
+    int64_t cid = obj.GetNumberLenient();
+    if (cid < 0 || cid > 0xFFFF)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid CID in the /W array");
+
+    return (unsigned)cid;
+}
+
 PdfFontStretch stretchFromString(const string_view& str)
 {
     if (str == "UltraCondensed")
-- 
2.43.0


From a6b4beeb5960cd1695ea669d3172a8074fd8eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:26 +0000
Subject: [PATCH 083/223] fix: a file without any trailer dereferences a null
 pointer

---
 src/pdfmm/base/PdfParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 17be36d..403ab53 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -620,7 +620,9 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 
 void PdfParser::ReadObjects(InputStreamDevice& device)
 {
-    PDFMM_ASSERT(m_Trailer != nullptr);
+    if (m_Trailer == nullptr)
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoTrailer);
+
     // Check for encryption and make sure that the encryption object
     // is loaded before all other objects
     PdfObject* encrypt = m_Trailer->GetDictionary().GetKey("Encrypt");
-- 
2.43.0


From aa7324b0f61729cefc7142ab76720bda6e53a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 084/223] fix: errors in JPEG data crash while the message is
 formatted

---
 src/pdfmm/private/JpegCommon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/JpegCommon.cpp b/src/pdfmm/private/JpegCommon.cpp
index e554c24..40a49fd 100644
--- a/src/pdfmm/private/JpegCommon.cpp
+++ b/src/pdfmm/private/JpegCommon.cpp
@@ -25,7 +25,7 @@ extern "C"
     {
         std::string error;
         error.resize(JMSG_LENGTH_MAX);
-        (*ctx->err->format_message) ((jpeg_common_struct*)&ctx, error.data()); \
+        (*ctx->err->format_message) (ctx, error.data());
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, error);
     }
 #pragma warning(pop)
-- 
2.43.0


From df12dc92fab89bc7fe8f75d20a531b790f2c3dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 085/223] fix: caption of a button without a widget
 dereferences a null pointer

---
 src/pdfmm/base/PdfButton.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfButton.cpp b/src/pdfmm/base/PdfButton.cpp
index 37cf698..743eaeb 100644
--- a/src/pdfmm/base/PdfButton.cpp
+++ b/src/pdfmm/base/PdfButton.cpp
@@ -48,11 +48,11 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetCaption(nullptr);
     }
@@ -60,8 +60,9 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfButton::GetCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
-    if (apChars == nullptr)
+    auto widget = GetWidget();
+    const PdfAppearanceCharacteristics* apChars;
+    if (widget == nullptr || (apChars = widget->GetAppearanceCharacteristics()) == nullptr)
         return { };
 
     return apChars->GetCaption();
-- 
2.43.0


From d076f156476e85a6e6fb7682f4bf52f2dbf076a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:27 +0000
Subject: [PATCH 086/223] fix: loaded outline items lose their last child and
 loading recurses on siblings

---
 src/pdfmm/base/PdfOutlines.cpp | 71 +++++++++++++++++++++++++++-------
 src/pdfmm/base/PdfOutlines.h   |  9 +++++
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 6df8ed7..87268e9 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -46,19 +46,48 @@ PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, Pd
     : PdfDictionaryElement(obj), m_ParentOutline(parentOutline), m_Prev(previous),
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
 {
-    utls::RecursionGuard guard;
-    PdfReference first, next;
+    set<PdfReference> visited = { obj.GetIndirectReference() };
+    loadSiblings(visited);
+}
 
-    if (this->GetObject().GetDictionary().HasKey("First"))
-    {
-        first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
-        m_First = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(first), this, nullptr);
-    }
+PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline,
+        PdfOutlineItem* previous, NoLoadTag)
+    : PdfDictionaryElement(obj), m_ParentOutline(parentOutline), m_Prev(previous),
+    m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
+{
+}
 
-    if (this->GetObject().GetDictionary().HasKey("Next"))
+// Load the children of this item, and all the items following this one with their children.
+// Items that are found more than once (eg. because of loops) are ignored after the first time
+void PdfOutlineItem::loadSiblings(set<PdfReference>& visited)
+{
+    utls::RecursionGuard guard;
+    PdfOutlineItem* current = this;
+    while (true)
     {
-        next = this->GetObject().GetDictionary().GetKey("Next")->GetReference();
-        m_Next = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(next), parentOutline, this);
+        auto& dict = current->GetObject().GetDictionary();
+        if (dict.HasKey("First"))
+        {
+            auto first = dict.GetKey("First")->GetReference();
+            if (visited.insert(first).second)
+            {
+                current->m_First = new PdfOutlineItem(GetDocument().GetObjects().MustGetObject(first), current, nullptr, NoLoadTag());
+                current->m_First->loadSiblings(visited);
+                current->m_Last = current->m_First;
+                while (current->m_Last->m_Next != nullptr)
+                    current->m_Last = current->m_Last->m_Next;
+            }
+        }
+
+        if (!dict.HasKey("Next"))
+            break;
+
+        auto next = dict.GetKey("Next")->GetReference();
+        if (!visited.insert(next).second)
+            break;
+
+        current->m_Next = new PdfOutlineItem(GetDocument().GetObjects().MustGetObject(next), m_ParentOutline, current, NoLoadTag());
+        current = current->m_Next;
     }
 }
 
@@ -70,8 +99,16 @@ PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
 
 PdfOutlineItem::~PdfOutlineItem()
 {
-    delete m_Next;
     delete m_First;
+    // Don't recurse on the siblings, there may be many of them
+    auto next = m_Next;
+    while (next != nullptr)
+    {
+        auto item = next;
+        next = item->m_Next;
+        item->m_Next = nullptr;
+        delete item;
+    }
 }
 
 PdfOutlineItem* PdfOutlineItem::CreateChild(const PdfString& title, const shared_ptr<PdfDestination>& dest)
@@ -130,10 +167,16 @@ void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
         item->SetPrevious(m_Last);
     }
 
-    m_Last = item;
-
     if (m_First == nullptr)
-        m_First = m_Last;
+        m_First = item;
+
+    // The item may be followed by siblings, adopt them as well
+    for (; item != nullptr; item = item->m_Next)
+    {
+        item->m_ParentOutline = this;
+        item->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
+        m_Last = item;
+    }
 
     this->GetObject().GetDictionary().AddKey("First", m_First->GetObject().GetIndirectReference());
     this->GetObject().GetDictionary().AddKey("Last", m_Last->GetObject().GetIndirectReference());
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 1db0e43..5316db5 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -231,6 +231,15 @@ protected:
      */
     PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, PdfOutlineItem* previous);
 
+private:
+    struct NoLoadTag { };
+
+    PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, PdfOutlineItem* previous, NoLoadTag);
+
+    void loadSiblings(std::set<PdfReference>& visited);
+
+protected:
+
 private:
     PdfOutlineItem* m_ParentOutline;
 
-- 
2.43.0


From 1047ba266d6d413548729fad20ac66d48c8bed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 087/223] fix: appending a document with outlines to one
 without dereferences a null pointer

---
 src/pdfmm/base/PdfDocument.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..199801b 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -180,17 +180,13 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         }
 
         // append all outlines
-        PdfOutlineItem* root = this->GetOutlines();
         PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
         if (appendRoot && appendRoot->First())
         {
             // only append outlines if appended document has outlines
-            while (root && root->Next())
-                root = root->Next();
-
             PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
                 + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-            root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
+            this->GetOrCreateOutlines().InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
         }
     }
 
@@ -269,17 +265,13 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     }
 
     // append all outlines
-    PdfOutlineItem* root = this->GetOutlines();
     PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
     if (appendRoot != nullptr && appendRoot->First())
     {
         // only append outlines if appended document has outlines
-        while (root != nullptr && root->Next())
-            root = root->Next();
-
         PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
             + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-        root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
+        this->GetOrCreateOutlines().InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
     }
 
     // TODO: merge name trees
-- 
2.43.0


From 10c66e93ffb388026a1ac0adc74089f24635dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 088/223] fix: objects of an appended document may replace the
 ones of the document

---
 src/pdfmm/base/PdfDocument.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 199801b..a9fa964 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -116,7 +116,8 @@ void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
 
 void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 {
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    // NOTE: The numbers of the objects are not necessarily contiguous
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
     // Because GetNextObject uses m_ObjectCount instead 
     // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
@@ -197,7 +198,8 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
 {
     // copy of PdfDocument::Append, only restricts which page to add
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    // NOTE: The numbers of the objects are not necessarily contiguous
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
 
     // Because GetNextObject uses m_ObjectCount instead 
-- 
2.43.0


From 24cae01ec8c2b0f54842b739f2b0136c07d3d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 089/223] fix: inserting a page of another document copies the
 wrong objects

---
 src/pdfmm/base/PdfDocument.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index a9fa964..08b36d3 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -208,13 +208,13 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     // prevent overlapping obj-numbers
 
     // create all free objects again, to have a clean free object list
-    for (auto& freeObj : GetObjects().GetFreeObjects())
+    for (auto& freeObj : doc.GetObjects().GetFreeObjects())
     {
         m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
     }
 
     // append all objects first and fix their references
-    for (auto& obj : GetObjects())
+    for (auto& obj : doc.GetObjects())
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
-- 
2.43.0


From d09a0deb05b28b80dff9685c40052db6284be626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 090/223] fix: decoding images with missing data or mismatching
 sizes reads out of bounds

---
 src/pdfmm/base/PdfImage.cpp      | 40 +++++++++++++++++++++++++++-----
 src/pdfmm/private/ImageUtils.cpp |  6 +++++
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index b539540..869b61e 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -72,10 +72,19 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
 
     charbuff smaskData;
     charbuff scanLine = initScanLine(format, rowSize, smaskData);
+    if (smaskData.size() != 0 && smaskData.size() < (uint64_t)m_Width * m_Height)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The soft mask doesn't cover the whole image");
 
     if (mediaFilters.size() == 0)
     {
-        switch (GetColorSpace())
+        if (GetDictionary().FindKeyAs<int64_t>("BitsPerComponent", 8) != 8)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported number of bits per component");
+
+        auto colorSpace = GetColorSpace();
+        if (imageData.size() < (uint64_t)m_Width * m_Height * (colorSpace == PdfColorSpace::DeviceRGB ? 3 : 1))
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
+
+        switch (colorSpace)
         {
             case PdfColorSpace::DeviceRGB:
                 utls::FetchImageRGB(stream, m_Width, m_Height, format, (const unsigned char*)imageData.data(), smaskData, scanLine);
@@ -109,6 +118,8 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
                         PDFMM_RAISE_ERROR(PdfErrorCode::UnexpectedEOF);
 
                     jpeg_start_decompress(&ctx);
+                    if (ctx.output_width != m_Width || ctx.output_height != m_Height)
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The size of the image and of the JPEG data mismatch");
 
                     unsigned rowBytes = (unsigned)(ctx.output_width * ctx.output_components);
 
@@ -150,6 +161,9 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
                     pdfium::span<const uint8_t>((const uint8_t *)imageData.data(), imageData.size()),
                     (int)m_Width, (int)m_Height, k, endOfLine, encodedByteAlign, blackIs1, columns, rows);
 
+                if (decoder == nullptr || decoder->GetWidth() < (int)m_Width)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Invalid CCITT fax image size");
+
                 utls::FetchImageBW(stream, m_Width, m_Height,
                     format, *decoder, smaskData, scanLine);
                 break;
@@ -172,8 +186,13 @@ charbuff PdfImage::GetDecodedCopy(PdfPixelFormat format)
 PdfImage::PdfImage(PdfObject& obj)
     : PdfXObject(obj, PdfXObjectType::Image)
 {
-    m_Width = static_cast<unsigned>(this->GetDictionary().MustFindKey("Width").GetNumber());
-    m_Height = static_cast<unsigned>(this->GetDictionary().MustFindKey("Height").GetNumber());
+    int64_t width = this->GetDictionary().MustFindKey("Width").GetNumber();
+    int64_t height = this->GetDictionary().MustFindKey("Height").GetNumber();
+    if (width < 0 || width > numeric_limits<int>::max() || height < 0 || height > numeric_limits<int>::max())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid image size");
+
+    m_Width = static_cast<unsigned>(width);
+    m_Height = static_cast<unsigned>(height);
 }
 
 charbuff PdfImage::initScanLine(PdfPixelFormat format, int rowSize, charbuff& smaskData) const
@@ -1334,19 +1353,28 @@ unsigned PdfImage::GetHeight() const
 
 unsigned PdfImage::getBufferSize(PdfPixelFormat format) const
 {
+    uint64_t ret;
     switch (format)
     {
         case PdfPixelFormat::RGBA:
         case PdfPixelFormat::BGRA:
-            return 4 * m_Width * m_Height;
+            ret = 4 * (uint64_t)m_Width * m_Height;
+            break;
         case PdfPixelFormat::RGB24:
         case PdfPixelFormat::BGR24:
-            return 4 * ((3 * m_Width + 3) / 4) * m_Height;
+            ret = 4 * ((3 * (uint64_t)m_Width + 3) / 4) * m_Height;
+            break;
         case PdfPixelFormat::Grayscale:
-            return 4 * ((m_Width + 3) / 4) * m_Height;
+            ret = 4 * (((uint64_t)m_Width + 3) / 4) * m_Height;
+            break;
         default:
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
+
+    if (ret > numeric_limits<unsigned>::max())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The image is too large");
+
+    return (unsigned)ret;
 }
 
 void fetchPDFScanLineRGB(unsigned char* dstScanLine, unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat)
diff --git a/src/pdfmm/private/ImageUtils.cpp b/src/pdfmm/private/ImageUtils.cpp
index b36ab2e..6d414db 100644
--- a/src/pdfmm/private/ImageUtils.cpp
+++ b/src/pdfmm/private/ImageUtils.cpp
@@ -90,6 +90,9 @@ void utls::FetchImageBW(OutputStream& stream, unsigned width, unsigned heigth, P
         for (unsigned i = 0; i < heigth; i++)
         {
             auto scanLineBW = decoder.GetScanline(i);
+            if (scanLineBW.empty())
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
+
             fetchScanLineBW((unsigned char*)scanLine.data(),
                 width, format, (const unsigned char*)scanLineBW.data());
             stream.Write(scanLine.data(), scanLine.size());
@@ -100,6 +103,9 @@ void utls::FetchImageBW(OutputStream& stream, unsigned width, unsigned heigth, P
         for (unsigned i = 0; i < heigth; i++)
         {
             auto scanLineBW = decoder.GetScanline(i);
+            if (scanLineBW.empty())
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
+
             fetchScanLineBW((unsigned char*)scanLine.data(),
                 width, format, scanLineBW.data(),
                 (const unsigned char*)smaskData.data() + i * width);
-- 
2.43.0


From d0f2eddc5c90d83213547cbc6ee6a9c0ff0dfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 091/223] fix: decoding gray images uses the row size of RGB
 images

---
 src/pdfmm/private/ImageUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/ImageUtils.cpp b/src/pdfmm/private/ImageUtils.cpp
index 6d414db..d427fc0 100644
--- a/src/pdfmm/private/ImageUtils.cpp
+++ b/src/pdfmm/private/ImageUtils.cpp
@@ -60,7 +60,7 @@ void utls::FetchImageRGB(OutputStream& stream, unsigned width, unsigned heigth,
 void utls::FetchImageGrayScale(OutputStream& stream, unsigned width, unsigned heigth, PdfPixelFormat format,
     const unsigned char* imageData, const charbuff& smaskData, charbuff& scanLine)
 {
-    unsigned srcRowSize = width * 3;
+    unsigned srcRowSize = width;
     if (smaskData.size() == 0)
     {
         for (unsigned i = 0; i < heigth; i++)
-- 
2.43.0


From 16e4e2e40751319dd1b26b10cee45d86493272f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 092/223] fix: garbage collection deletes the objects of
 imported fonts in use

---
 src/pdfmm/base/PdfFontManager.cpp        | 12 ++++++++++++
 src/pdfmm/base/PdfFontManager.h          |  2 ++
 src/pdfmm/base/PdfIndirectObjectList.cpp |  6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index c2fd370..7c8596d 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -94,6 +94,18 @@ PdfFont* PdfFontManager::addImported(vector<PdfFont*>& fonts, unique_ptr<PdfFont
     return inserted.first->second.Font.get();
 }
 
+vector<const PdfObject*> PdfFontManager::getImportedFontObjects() const
+{
+    vector<const PdfObject*> ret;
+    for (auto& pair : m_fonts)
+    {
+        if (!pair.second.IsLoaded)
+            ret.push_back(&pair.second.Font->GetObject());
+    }
+
+    return ret;
+}
+
 PdfFont* PdfFontManager::GetLoadedFont(const PdfObject& obj)
 {
     // TODO: We should check that the font being loaded
diff --git a/src/pdfmm/base/PdfFontManager.h b/src/pdfmm/base/PdfFontManager.h
index 7afb00d..a5b16f4 100644
--- a/src/pdfmm/base/PdfFontManager.h
+++ b/src/pdfmm/base/PdfFontManager.h
@@ -48,6 +48,7 @@ struct PdfFontSearchParams
 class PDFMM_API PdfFontManager final
 {
     friend class PdfDocument;
+    friend class PdfIndirectObjectList;
     friend class PdfMemDocument;
     friend class PdfStreamedDocument;
     friend class PdfFont;
@@ -197,6 +198,7 @@ private:
         PdfFontSearchParams& searchParams);
     PdfFont* getImportedFont(const PdfFontMetricsConstPtr& metrics,
         const PdfFontCreateParams& params, const FontMatcher& matchFont);
+    std::vector<const PdfObject*> getImportedFontObjects() const;
     PdfFont* addImported(std::vector<PdfFont*>& fonts, std::unique_ptr<PdfFont>&& font);
 
 #if defined(_WIN32) && defined(PDFMM_HAVE_WIN32GDI)
diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 650eab4..0e01866 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -349,6 +349,12 @@ void PdfIndirectObjectList::CollectGarbage()
 
     unordered_set<PdfReference> referencedOjects;
     visitObject(m_Document->GetTrailer().GetObject(), referencedOjects);
+
+    // The imported fonts are owned by the document and they may
+    // still be used later, even if they are not referenced yet
+    for (auto fontObj : m_Document->GetFonts().getImportedFontObjects())
+        visitObject(*fontObj, referencedOjects);
+
     vector<PdfObject*> objectsToDelete;
     ObjectList newlist;
     for (PdfObject* obj : m_Objects)
-- 
2.43.0


From ae4d959e3b979532b1d02a384c7c28c6240e892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:36 +0000
Subject: [PATCH 093/223] fix: deeply nested dictionaries exhaust the stack

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 2c5e287..11f483a 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -420,6 +420,7 @@ bool PdfTokenizer::tryReadDataType(InputStreamDevice& device, PdfLiteralDataType
 
 void PdfTokenizer::ReadDictionary(InputStreamDevice& device, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
+    utls::RecursionGuard guard;
     PdfVariant val;
     PdfName key;
     PdfTokenType tokenType;
-- 
2.43.0


From 8c53a0f39c10ce30d1ea448e0019ede5bb89f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 094/223] fix: CMap with several CIDs for a code reads out of
 bounds

---
 src/pdfmm/base/PdfEncodingMap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..078b302 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -112,8 +112,10 @@ bool PdfEncodingMap::TryGetNextCID(string_view::iterator& it,
 {
     if (GetType() == PdfEncodingMapType::CMap)
     {
+        // Save current iterator in the case the search is unsuccessful
+        string_view::iterator curr = it;
         vector<char32_t> codePoints;
-        bool success = tryGetNextCodePoints(it, end, cid.Unit, codePoints);
+        bool success = tryGetNextCodePoints(curr, end, cid.Unit, codePoints);
         if (!success || codePoints.size() != 1)
         {
             // Return false on missing lookup or malformed multiple code points found
@@ -121,6 +123,8 @@ bool PdfEncodingMap::TryGetNextCID(string_view::iterator& it,
             return false;
         }
 
+        it = curr;
+
         // char32_t is also unsigned
         cid.Id = (unsigned)codePoints[0];
         return true;
-- 
2.43.0


From b99c7804c6906c0964b46bedfff27aa4385b777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 095/223] fix: extracting text from recursive forms uses freed
 memory

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 49c8677..edba35d 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -408,7 +408,9 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
             }
             case PdfContentType::DoXObject:
             {
-                if (content.XObject->GetType() == PdfXObjectType::Form)
+                // NOTE: The content of recursive forms is not followed
+                if (content.XObject->GetType() == PdfXObjectType::Form
+                    && (content.Warnings & PdfContentWarnings::RecursiveXObject) == PdfContentWarnings::None)
                 {
                     context.XObjectStateIndices.push_back({
                         (const PdfXObjectForm*)content.XObject.get(),
-- 
2.43.0


From 5bfa13a8fd97fbbeec0bb122c3a1397c20446282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 096/223] fix: malformed name trees read out of bounds or
 recurse endlessly

---
 src/pdfmm/base/PdfNameTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ae19b9e..bde7349 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -341,6 +341,7 @@ PdfObject* PdfNameTree::GetValue(const PdfName& tree, const PdfString& key) cons
 
 PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
 {
+    utls::RecursionGuard guard;
     if (PdfNameTree::CheckLimits(obj, key) != PdfNameLimits::Inside)
         return nullptr;
 
@@ -375,7 +376,7 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
 
         // a names array is a set of PdfString/PdfObject pairs
         // so we loop in sets of two - getting each pair
-        while (it != names.end())
+        while (names.end() - it >= 2)
         {
             if (it->GetString() == key)
             {
@@ -418,6 +419,9 @@ PdfNameLimits PdfNameTree::CheckLimits(const PdfObject& obj, const PdfString& ke
     {
         auto& limits = obj.GetDictionary().MustFindKey("Limits").GetArray();
 
+        if (limits.GetSize() < 2)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid name tree limits");
+
         if (limits[0].GetString().GetString() > key.GetString())
             return PdfNameLimits::Before;
 
-- 
2.43.0


From c101c2eb3a8cd72b7197df9ddb8885bb2c51a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 097/223] fix: invalid, missing or repeated annotations and
 fields crash

---
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 23 +++++++++++++++----
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 23 +++++++++++++++----
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index af15e10..7d7604a 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -50,7 +50,10 @@ void PdfAnnotationCollection::RemoveAnnotAt(unsigned index)
     if (m_Annots[index] != nullptr)
     {
         // It may be null if the annotation is invalid
-        m_annotMap->erase(m_annotMap->find(m_Annots[index]->GetObject().GetIndirectReference()));
+        // NOTE: The same reference may be found more than once
+        auto found = m_annotMap->find(m_Annots[index]->GetObject().GetIndirectReference());
+        if (found != m_annotMap->end())
+            m_annotMap->erase(found);
     }
 
     m_annotArray->RemoveAt(index);
@@ -137,13 +140,21 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Annots[index];
+    auto& ret = m_Annots[index];
+    if (ret == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid annotation");
+
+    return *ret;
 }
 
 PdfAnnotation& PdfAnnotationCollection::getAnnot(const PdfReference& ref) const
 {
     const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
-    return *m_Annots[(*m_annotMap).at(ref)];
+    auto found = m_annotMap->find(ref);
+    if (found == m_annotMap->end() || m_Annots[found->second] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid annotation");
+
+    return *m_Annots[found->second];
 }
 
 void PdfAnnotationCollection::initAnnotations()
@@ -161,9 +172,11 @@ void PdfAnnotationCollection::initAnnotations()
     unsigned i = 0;
     for (auto obj : m_annotArray->GetIndirectIterator())
     {
-        (*m_annotMap)[obj->GetIndirectReference()] = i;
+        if (obj != nullptr)
+            m_annotMap->insert({ obj->GetIndirectReference(), i });
+
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfAnnotation::TryCreateFromObject(*obj, annot))
+        if (obj != nullptr && PdfAnnotation::TryCreateFromObject(*obj, annot))
         {
             annot->SetPage(*m_Page);
             m_Annots.push_back(std::move(annot));
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 76e05e8..c191f1a 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -57,7 +57,10 @@ void PdfFieldChildrenCollectionBase::RemoveFieldAt(unsigned index)
     if (m_Fields[index] != nullptr)
     {
         // It may be null if the annotation is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        // NOTE: The same reference may be found more than once
+        auto found = m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference());
+        if (found != m_fieldMap->end())
+            m_fieldMap->erase(found);
     }
 
     m_kidsArray->RemoveAt(index);
@@ -146,13 +149,21 @@ PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Fields[index];
+    auto& ret = m_Fields[index];
+    if (ret == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
+    return *ret;
 }
 
 PdfField& PdfFieldChildrenCollectionBase::getField(const PdfReference& ref) const
 {
     const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end() || m_Fields[found->second] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
+    return *m_Fields[found->second];
 }
 
 void PdfFieldChildrenCollectionBase::initFields()
@@ -170,9 +181,11 @@ void PdfFieldChildrenCollectionBase::initFields()
     unsigned i = 0;
     for (auto obj : m_kidsArray->GetIndirectIterator())
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
+        if (obj != nullptr)
+            m_fieldMap->insert({ obj->GetIndirectReference(), i });
+
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
         {
             field->SetParent(m_field->GetPtr());
             m_Fields.push_back(std::move(field));
-- 
2.43.0


From a7a0ff91533a283a95fb1aade7da0091b1a200a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:22 +0000
Subject: [PATCH 098/223] fix: every refused recursion lowers the depth allowed
 afterwards

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..178befc 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1219,8 +1219,7 @@ void removeTrailingZeroes(string& str)
 
 void utls::RecursionGuard::Enter()
 {
-    s_recursionDepth++;
-    if (s_recursionDepth > s_MaxRecursionDepth)
+    if (s_recursionDepth >= s_MaxRecursionDepth)
     {
         // avoid stack overflow on documents that have circular cross references, loops
         // or very deeply nested structures, can happen with
@@ -1230,6 +1229,9 @@ void utls::RecursionGuard::Enter()
         // mutually recursive loops involving several objects are possible
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Stack overflow");
     }
+
+    // NOTE: Exit() is not called when the guard can't be created
+    s_recursionDepth++;
 }
 
 void utls::RecursionGuard::Exit()
-- 
2.43.0


From ee3f57d76e042803bc9e3ee19f4c826f19f71588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:19 +0000
Subject: [PATCH 099/223] fix: text shown without a font keeps the positions of
 the previous string

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index edba35d..5fd5c05 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -690,7 +690,8 @@ bool decodeString(const PdfString &str, TextState &state, string &decoded,
             // As a fallback try to retrieve the raw string
             // CHECK-ME: Maybe intrepret them as PdfDocEncoding?
             decoded = str.GetString();
-            lengths.resize(decoded.length());
+            lengths.assign(decoded.length(), 0);
+            positions.clear();
             positions.reserve(decoded.length());
             for (unsigned i = 0; i < decoded.length(); i++)
                 positions.push_back(i);
-- 
2.43.0


From fb53dfac71bad1f6cb41e33a5c9718a26664ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:19 +0000
Subject: [PATCH 100/223] fix: splitting the text of a single code reads out of
 bounds

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 5fd5c05..d4e79ac 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -1144,7 +1144,7 @@ void splitStringBySpaces(vector<StatefulString> &separatedStrings, const Statefu
         // Fixed string positions after split
         auto positions = vector<unsigned>(str.StringPositions.begin() + lowerPosIndex, str.StringPositions.begin() + upperPosLimIndex);
         for (unsigned i = 0; i < positions.size(); i++)
-            positions[i] -= lowerPos;
+            positions[i] = positions[i] > lowerPos ? positions[i] - lowerPos : 0;
 
         separatedStrings.push_back(StatefulString(std::move(separatedStr), state,
             { str.Lengths.begin() + lowerPosIndex, str.Lengths.begin() + upperPosLimIndex },
@@ -1398,11 +1398,12 @@ void getSubstringIndices(const vector<unsigned>& positions, unsigned lowerPos, u
     upperPosLimIndex = 0;
     for (unsigned i = 0; i < positions.size(); i++)
     {
-        if (positions[i] >= lowerPos)
-        {
-            lowerPosIndex = i;
+        // NOTE: The glyph may start before the given position
+        if (positions[i] > lowerPos && lowerPosIndex != std::numeric_limits<unsigned>::max())
             break;
-        }
+
+        if (positions[i] < lowerPos || lowerPosIndex == std::numeric_limits<unsigned>::max() || positions[lowerPosIndex] < lowerPos)
+            lowerPosIndex = i;
     }
 
     for (int i = (int)positions.size() - 1; i >= 0; i--)
-- 
2.43.0


From 6cc2253bd3e4fe6dda5a0cfc887bc5fd1e20d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:38 +0000
Subject: [PATCH 101/223] fix: trimming the text of a single code computes
 wrong positions

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index d4e79ac..113780a 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -747,15 +747,10 @@ StatefulString StatefulString::GetTrimmedBegin() const
     {
         auto spacestr = str.substr(0, trimmedLen);
         double length = 0;
-        for (unsigned i = 0; i < StringPositions.size(); i++)
+        while (lowerIndex + 1 < StringPositions.size() && StringPositions[lowerIndex] < trimmedLen)
         {
-            if (StringPositions[i] >= trimmedLen)
-            {
-                lowerIndex = i;
-                break;
-            }
-
-            length += Lengths[i];
+            length += Lengths[lowerIndex];
+            lowerIndex++;
         }
 
         state.T_m.Apply<Tx>(length);
@@ -765,7 +760,7 @@ StatefulString StatefulString::GetTrimmedBegin() const
     // Fixed string positions after trim
     auto positions = vector<unsigned>(StringPositions.begin() + lowerIndex, StringPositions.end());
     for (unsigned i = 0; i < positions.size(); i++)
-        positions[i] -= trimmedLen;
+        positions[i] = positions[i] > trimmedLen ? positions[i] - trimmedLen : 0;
 
     // After, rewrite the string without spaces
     return StatefulString(str.substr(trimmedLen), state,
-- 
2.43.0


From ccf043d9a93c847cf36bcc51e1fff2703330a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:38 +0000
Subject: [PATCH 102/223] fix: lengths of the text trimmed at the end are
 transformed twice

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 113780a..7a6a213 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -814,7 +814,7 @@ StatefulString StatefulString::GetTrimmedEnd() const
         }
     }
     return StatefulString(std::move(trimmedStr), State,
-        { Lengths.begin(), Lengths.begin() + positionIndexLimit },
+        { RawLengths.begin(), RawLengths.begin() + positionIndexLimit },
         { StringPositions.begin(), StringPositions.begin() + positionIndexLimit });
 }
 
-- 
2.43.0


From 35b6d154f9e8b7d5d77d2e158b3abb2797ff0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 103/223] fix: form filled from a page of another document
 copies another object

---
 src/pdfmm/base/PdfDocument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 08b36d3..e489160 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -344,7 +344,7 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
     auto& sourceDoc = page.GetDocument();
     if (this != &sourceDoc)
     {
-        difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+        difference = m_Objects.GetObjectCount() - 1;
         append(sourceDoc, false);
     }
 
-- 
2.43.0


From 697076aa9cb663aa68c23d6d9e4272cdb22ef1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 104/223] fix: form filled from a page loses the inherited
 resources

---
 src/pdfmm/base/PdfDocument.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index e489160..35b9ffa 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -362,8 +362,19 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
         box.Intersect(page.GetTrimBox());
 
     // link resources from external doc to x-object
+    // NOTE: the resources may be inherited
+    auto resources = page.GetDictionary().FindKeyParent("Resources");
     if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Resources"))
+    {
         xobj.GetObject().GetDictionary().AddKey("Resources", *pageObj.GetDictionary().GetKey("Resources"));
+    }
+    else if (resources != nullptr)
+    {
+        PdfObject resourcesCopy(*resources);
+        if (difference != 0)
+            fixObjectReferences(resourcesCopy, difference);
+        xobj.GetObject().GetDictionary().AddKey("Resources", resourcesCopy);
+    }
 
     // copy top-level content from external doc to x-object
     if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Contents"))
-- 
2.43.0


From 84abf40946afdcaba351f7c205da26208ae47f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 105/223] fix: form filled from a page joins the tokens of its
 content streams

---
 src/pdfmm/base/PdfDocument.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 35b9ffa..9fbb0b3 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -409,6 +409,8 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
                             charbuff contStreamBuffer;
                             contStream.CopyTo(contStreamBuffer);
                             output.Write(contStreamBuffer);
+                            // The streams are separated between tokens
+                            output.Write("\n");
                             break;
                         }
                         else
-- 
2.43.0


From 4823dd2bf40b394dedd1c757efbec03ba9c0d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 106/223] fix: appending pages out of range removes pages

---
 src/pdfmm/base/PdfDocument.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 9fbb0b3..04927c4 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -301,10 +301,14 @@ void PdfDocument::AppendDocumentPages(const PdfDocument& doc, unsigned pageIndex
     // then offset them based on where the pages were inserted
     // NOTE: some of this will change if/when we support insertion at locations
     //       OTHER than the end of the document!
+    unsigned sourceCount = doc.GetPages().GetCount();
+    if (pageIndex > sourceCount || pageCount > sourceCount - pageIndex)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The source document doesn't have the requested pages");
+
     unsigned leftStartPage = 0;
     unsigned leftCount = pageIndex;
     unsigned rightStartPage = pageIndex + pageCount;
-    unsigned rightCount = doc.GetPages().GetCount() - rightStartPage;
+    unsigned rightCount = sourceCount - rightStartPage;
     unsigned pageOffset = this->GetPages().GetCount();
 
     leftStartPage += pageOffset;
-- 
2.43.0


From cebb31e0ba4f2380836a37e3fb2a07f776fdacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:43 +0000
Subject: [PATCH 107/223] fix: copied pages inherit attributes from their new
 parents

---
 src/pdfmm/base/PdfDocument.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 04927c4..f3bd1f2 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -31,6 +31,8 @@
 using namespace std;
 using namespace mm;
 
+static void hideInheritedAttributes(PdfObject& pageObj);
+
 PdfDocument::PdfDocument(bool empty) :
     m_Objects(*this),
     m_Metadata(*this),
@@ -178,6 +180,7 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
             }
 
             m_Pages->InsertPageAt(m_Pages->GetCount(), obj);
+            hideInheritedAttributes(obj);
         }
 
         // append all outlines
@@ -264,6 +267,7 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
         }
 
         m_Pages->InsertPageAt(atIndex, obj);
+        hideInheritedAttributes(obj);
     }
 
     // append all outlines
@@ -627,3 +631,27 @@ unique_ptr<PdfXObjectForm> PdfDocument::CreateXObjectForm(const PdfRect& rect, c
 {
     return unique_ptr<PdfXObjectForm>(new PdfXObjectForm(*this, rect, prefix));
 }
+
+// A copied page shall not inherit attributes from its new parents
+void hideInheritedAttributes(PdfObject& pageObj)
+{
+    auto& dict = pageObj.GetDictionary();
+    auto inherits = [&](const string_view& key)
+    {
+        auto value = dict.FindKey(key);
+        return (value == nullptr || value->IsNull()) && dict.FindKeyParent(key) != nullptr;
+    };
+
+    if (inherits("Rotate"))
+        dict.AddKey("Rotate", PdfVariant(static_cast<int64_t>(0)));
+
+    if (inherits("Resources"))
+        dict.AddKey("Resources", PdfDictionary());
+
+    if (inherits("CropBox"))
+    {
+        auto mediaBox = dict.FindKeyParent("MediaBox");
+        if (mediaBox != nullptr)
+            dict.AddKey("CropBox", PdfObject(*mediaBox));
+    }
+}
-- 
2.43.0


From 254bfd7d281de6a3665aa20dac6ff41ab3737ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:02 +0000
Subject: [PATCH 108/223] fix: appending a document to itself never ends

---
 src/pdfmm/base/PdfDocument.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index f3bd1f2..f83b8d3 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -127,11 +127,14 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
     // prevent overlapping obj-numbers
 
     // create all free objects again, to have a clean free object list
-    for (auto& ref : doc.GetObjects().GetFreeObjects())
+    // NOTE: the document may be appended to itself
+    const ReferenceList freeObjects = doc.GetObjects().GetFreeObjects();
+    for (auto& ref : freeObjects)
         m_Objects.AddFreeObject(PdfReference(ref.ObjectNumber() + difference, ref.GenerationNumber()));
 
     // append all objects first and fix their references
-    for (auto& obj : doc.GetObjects())
+    const vector<PdfObject*> objects(doc.GetObjects().begin(), doc.GetObjects().end());
+    for (auto obj : objects)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
@@ -156,7 +159,8 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         };
 
         // append all pages now to our page tree
-        for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
+        const unsigned pageCount = doc.GetPages().GetCount();
+        for (unsigned i = 0; i < pageCount; i++)
         {
             auto& page = doc.GetPages().GetPageAt(i);
             auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
@@ -211,13 +215,16 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     // prevent overlapping obj-numbers
 
     // create all free objects again, to have a clean free object list
-    for (auto& freeObj : doc.GetObjects().GetFreeObjects())
+    // NOTE: the page may be of this same document
+    const ReferenceList freeObjects = doc.GetObjects().GetFreeObjects();
+    for (auto& freeObj : freeObjects)
     {
         m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
     }
 
     // append all objects first and fix their references
-    for (auto& obj : doc.GetObjects())
+    const vector<PdfObject*> objects(doc.GetObjects().begin(), doc.GetObjects().end());
+    for (auto obj : objects)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
@@ -240,7 +247,8 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     };
 
     // append all pages now to our page tree
-    for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
+    const unsigned pageCount = doc.GetPages().GetCount();
+    for (unsigned i = 0; i < pageCount; i++)
     {
         if (i != pageIndex)
             continue;
-- 
2.43.0


From aa13dd33d6f834ea3d1c0c2499ba8fc99889cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:33 +0000
Subject: [PATCH 109/223] fix: loops in loaded outlines are an error again

---
 src/pdfmm/base/PdfOutlines.cpp | 35 +++++++++++++++++++++++-----------
 src/pdfmm/base/PdfOutlines.h   |  1 +
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 87268e9..bd61b4f 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -47,7 +47,15 @@ PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, Pd
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
 {
     set<PdfReference> visited = { obj.GetIndirectReference() };
-    loadSiblings(visited);
+    try
+    {
+        loadSiblings(visited);
+    }
+    catch (...)
+    {
+        deleteItems();
+        throw;
+    }
 }
 
 PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline,
@@ -58,7 +66,7 @@ PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline,
 }
 
 // Load the children of this item, and all the items following this one with their children.
-// Items that are found more than once (eg. because of loops) are ignored after the first time
+// Items that are found more than once (eg. because of loops) are an error
 void PdfOutlineItem::loadSiblings(set<PdfReference>& visited)
 {
     utls::RecursionGuard guard;
@@ -69,14 +77,14 @@ void PdfOutlineItem::loadSiblings(set<PdfReference>& visited)
         if (dict.HasKey("First"))
         {
             auto first = dict.GetKey("First")->GetReference();
-            if (visited.insert(first).second)
-            {
-                current->m_First = new PdfOutlineItem(GetDocument().GetObjects().MustGetObject(first), current, nullptr, NoLoadTag());
-                current->m_First->loadSiblings(visited);
-                current->m_Last = current->m_First;
-                while (current->m_Last->m_Next != nullptr)
-                    current->m_Last = current->m_Last->m_Next;
-            }
+            if (!visited.insert(first).second)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in the outlines");
+
+            current->m_First = new PdfOutlineItem(GetDocument().GetObjects().MustGetObject(first), current, nullptr, NoLoadTag());
+            current->m_First->loadSiblings(visited);
+            current->m_Last = current->m_First;
+            while (current->m_Last->m_Next != nullptr)
+                current->m_Last = current->m_Last->m_Next;
         }
 
         if (!dict.HasKey("Next"))
@@ -84,7 +92,7 @@ void PdfOutlineItem::loadSiblings(set<PdfReference>& visited)
 
         auto next = dict.GetKey("Next")->GetReference();
         if (!visited.insert(next).second)
-            break;
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in the outlines");
 
         current->m_Next = new PdfOutlineItem(GetDocument().GetObjects().MustGetObject(next), m_ParentOutline, current, NoLoadTag());
         current = current->m_Next;
@@ -98,6 +106,11 @@ PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
 }
 
 PdfOutlineItem::~PdfOutlineItem()
+{
+    deleteItems();
+}
+
+void PdfOutlineItem::deleteItems()
 {
     delete m_First;
     // Don't recurse on the siblings, there may be many of them
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 5316db5..2ab8ab3 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -236,6 +236,7 @@ private:
 
     PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, PdfOutlineItem* previous, NoLoadTag);
 
+    void deleteItems();
     void loadSiblings(std::set<PdfReference>& visited);
 
 protected:
-- 
2.43.0


From d8838c8d61886eab938b636c6c2be34d6bc6958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 110/223] fix: rectangle of a destination has the corner as
 size

---
 src/pdfmm/base/PdfDestination.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index 77862f5..e8ff8c9 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -227,7 +227,7 @@ PdfRect PdfDestination::GetRect() const
 
     auto& arr = GetArray();
     return PdfRect(arr[2].GetReal(), arr[3].GetReal(),
-        arr[4].GetReal(), arr[5].GetReal());
+        arr[4].GetReal() - arr[2].GetReal(), arr[5].GetReal() - arr[3].GetReal());
 }
 
 double PdfDestination::GetTop() const
-- 
2.43.0


From 3aa915dd2a93658e4a7fbce61ad4bc2332a7a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 111/223] fix: value of FitBV destinations can't be read

---
 src/pdfmm/base/PdfDestination.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index e8ff8c9..ded1aa0 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -199,7 +199,8 @@ double PdfDestination::GetDValue() const
     PdfDestinationType tp = GetType();
     if (tp != PdfDestinationType::FitH
         && tp != PdfDestinationType::FitV
-        && tp != PdfDestinationType::FitBH)
+        && tp != PdfDestinationType::FitBH
+        && tp != PdfDestinationType::FitBV)
     {
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
     }
@@ -211,6 +212,7 @@ double PdfDestination::GetLeft() const
 {
     PdfDestinationType tp = GetType();
     if (tp != PdfDestinationType::FitV
+        && tp != PdfDestinationType::FitBV
         && tp != PdfDestinationType::XYZ
         && tp != PdfDestinationType::FitR)
     {
-- 
2.43.0


From cdb7334dae7ff8ec3f2d75764d33774bce1ace09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 112/223] fix: destinations that need a value are written
 without a type when it's missing

---
 src/pdfmm/base/PdfDestination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index ded1aa0..112154a 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -34,6 +34,8 @@ PdfDestination::PdfDestination(const PdfPage& page, PdfDestinationFit fit)
         type = PdfName("Fit");
     else if (fit == PdfDestinationFit::FitB)
         type = PdfName("FitB");
+    else
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidKey);
 
     auto& arr = GetArray();
     arr.Add(page.GetObject().GetIndirectReference());
-- 
2.43.0


From 5141b286c49687dd411f2a379ab8372f8e745581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 113/223] fix: inserting an outline item that is already in the
 tree is not refused

---
 src/pdfmm/base/PdfOutlines.cpp | 37 +++++++++-------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index bd61b4f..79b24ce 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -138,39 +138,20 @@ void PdfOutlineItem::InsertChild(PdfOutlineItem* item)
 
 void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
 {
-    PdfOutlineItem* itemToCheckParent = item;
-    PdfOutlineItem* root = nullptr;
-    PdfOutlineItem* rootOfThis = nullptr;
-
-    if (itemToCheckParent == nullptr)
+    if (item == nullptr)
         return;
 
     if (checkParent)
     {
-        while (itemToCheckParent != nullptr)
-        {
-            while (itemToCheckParent->GetParentOutline())
-                itemToCheckParent = itemToCheckParent->GetParentOutline();
-
-            if (itemToCheckParent == item) // item can't have a parent
-            {
-                root = item; // needed later, "root" can mean "standalone" here
-                break;         // for performance in standalone or doc-merge case
-            }
-
-            if (root == nullptr)
-            {
-                rootOfThis = itemToCheckParent;
-                itemToCheckParent = nullptr;
-            }
-            else
-            {
-                root = itemToCheckParent;
-                itemToCheckParent = this;
-            }
-        }
+        const PdfOutlineItem* root = item;
+        while (root->GetParentOutline() != nullptr)
+            root = root->GetParentOutline();
+
+        const PdfOutlineItem* rootOfThis = this;
+        while (rootOfThis->GetParentOutline() != nullptr)
+            rootOfThis = rootOfThis->GetParentOutline();
 
-        if (root == rootOfThis) // later nullptr if check skipped for performance
+        if (root == rootOfThis)
             PDFMM_RAISE_ERROR(PdfErrorCode::OutlineItemAlreadyPresent);
     }
 
-- 
2.43.0


From 3854a0fd4d400f60c234a0431ce157e0648b2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:36 +0000
Subject: [PATCH 114/223] fix: count of outline items is neither written nor
 updated

---
 src/pdfmm/base/PdfOutlines.cpp | 42 ++++++++++++++++++++++++++++++++++
 src/pdfmm/base/PdfOutlines.h   |  2 ++
 2 files changed, 44 insertions(+)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 79b24ce..209f8b6 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -170,12 +170,45 @@ void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
         item->m_ParentOutline = this;
         item->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
         m_Last = item;
+        this->addToCount(item->countVisible());
     }
 
     this->GetObject().GetDictionary().AddKey("First", m_First->GetObject().GetIndirectReference());
     this->GetObject().GetDictionary().AddKey("Last", m_Last->GetObject().GetIndirectReference());
 }
 
+static int64_t getCount(const PdfDictionary& dict)
+{
+    // Ignore meaningless values
+    auto count = dict.FindKeyAsSafe<int64_t>("Count", 0);
+    return std::abs(count / 2) > std::numeric_limits<int32_t>::max() ? 0 : count;
+}
+
+// Number of items that are seen when the parent of this item is open
+int64_t PdfOutlineItem::countVisible() const
+{
+    return 1 + std::max((int64_t)0, getCount(GetObject().GetDictionary()));
+}
+
+// Items are closed unless they say otherwise, the root is always open
+void PdfOutlineItem::addToCount(int64_t visible)
+{
+    for (auto item = this; item != nullptr; item = item->m_ParentOutline)
+    {
+        auto& dict = item->GetObject().GetDictionary();
+        int64_t count = getCount(dict);
+        bool open = item->m_ParentOutline == nullptr || count > 0;
+        count = open ? count + visible : count - visible;
+        if (count == 0)
+            dict.RemoveKey("Count");
+        else
+            dict.AddKey("Count", count);
+
+        if (!open)
+            break;
+    }
+}
+
 PdfOutlineItem* PdfOutlineItem::CreateNext(const PdfString& title, const shared_ptr<PdfDestination>& dest)
 {
     PdfOutlineItem* item = new PdfOutlineItem(*this->GetObject().GetDocument(), title, dest, m_ParentOutline);
@@ -194,6 +227,9 @@ PdfOutlineItem* PdfOutlineItem::CreateNext(const PdfString& title, const shared_
     if (m_ParentOutline != nullptr && m_Next->Next() == nullptr)
         m_ParentOutline->SetLast(m_Next);
 
+    if (m_ParentOutline != nullptr)
+        m_ParentOutline->addToCount(1);
+
     return m_Next;
 }
 
@@ -215,6 +251,9 @@ PdfOutlineItem* PdfOutlineItem::CreateNext(const PdfString& title, const shared_
     if (m_ParentOutline != nullptr && m_Next->Next() == nullptr)
         m_ParentOutline->SetLast(m_Next);
 
+    if (m_ParentOutline != nullptr)
+        m_ParentOutline->addToCount(1);
+
     return m_Next;
 }
 
@@ -280,6 +319,9 @@ void PdfOutlineItem::Erase()
     if (m_Next == nullptr && m_ParentOutline != nullptr && this == m_ParentOutline->Last())
         m_ParentOutline->SetLast(m_Prev);
 
+    if (m_ParentOutline != nullptr)
+        m_ParentOutline->addToCount(-countVisible());
+
     m_Next = nullptr;
     delete this;
 }
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 2ab8ab3..e34ea77 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -193,6 +193,8 @@ private:
     void SetLast(PdfOutlineItem* item);
     void SetFirst(PdfOutlineItem* item);
 
+    void addToCount(int64_t visible);
+    int64_t countVisible() const;
     void InsertChildInternal(PdfOutlineItem* item, bool checkParent);
 
 protected:
-- 
2.43.0


From 6f79306b7f4fb8e9e313469db6aaf2231e6b4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:19 +0000
Subject: [PATCH 115/223] fix: null or indirect values in the entries of an
 outline item are refused

---
 src/pdfmm/base/PdfOutlines.cpp | 41 ++++++++++++++++++----------------
 src/pdfmm/base/PdfOutlines.h   |  1 +
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 209f8b6..8a9fc2a 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -74,9 +74,10 @@ void PdfOutlineItem::loadSiblings(set<PdfReference>& visited)
     while (true)
     {
         auto& dict = current->GetObject().GetDictionary();
-        if (dict.HasKey("First"))
+        auto firstObj = dict.GetKey("First");
+        if (firstObj != nullptr && !firstObj->IsNull())
         {
-            auto first = dict.GetKey("First")->GetReference();
+            auto first = firstObj->GetReference();
             if (!visited.insert(first).second)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in the outlines");
 
@@ -87,10 +88,11 @@ void PdfOutlineItem::loadSiblings(set<PdfReference>& visited)
                 current->m_Last = current->m_Last->m_Next;
         }
 
-        if (!dict.HasKey("Next"))
+        auto nextObj = dict.GetKey("Next");
+        if (nextObj == nullptr || nextObj->IsNull())
             break;
 
-        auto next = dict.GetKey("Next")->GetReference();
+        auto next = nextObj->GetReference();
         if (!visited.insert(next).second)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in the outlines");
 
@@ -393,10 +395,11 @@ void PdfOutlineItem::SetTextFormat(PdfOutlineFormat eFormat)
 
 PdfOutlineFormat PdfOutlineItem::GetTextFormat() const
 {
-    if (this->GetObject().GetDictionary().HasKey("F"))
-        return static_cast<PdfOutlineFormat>(this->GetObject().GetDictionary().MustFindKey("F").GetNumber());
+    auto obj = this->GetObject().GetDictionary().FindKey("F");
+    if (obj == nullptr || obj->IsNull())
+        return PdfOutlineFormat::Default;
 
-    return PdfOutlineFormat::Default;
+    return static_cast<PdfOutlineFormat>(obj->GetNumber());
 }
 
 void PdfOutlineItem::SetTextColor(double r, double g, double b)
@@ -410,28 +413,28 @@ void PdfOutlineItem::SetTextColor(double r, double g, double b)
 }
 
 
-double PdfOutlineItem::GetTextColorRed() const
+double PdfOutlineItem::getTextColor(unsigned component) const
 {
-    if (this->GetObject().GetDictionary().HasKey("C"))
-        return this->GetObject().GetDictionary().MustFindKey("C").GetArray()[0].GetReal();
+    auto obj = this->GetObject().GetDictionary().FindKey("C");
+    if (obj == nullptr || obj->IsNull())
+        return 0.0;
 
-    return 0.0;
+    return obj->GetArray().MustFindAt(component).GetReal();
 }
 
-double PdfOutlineItem::GetTextColorGreen() const
+double PdfOutlineItem::GetTextColorRed() const
 {
-    if (this->GetObject().GetDictionary().HasKey("C"))
-        return this->GetObject().GetDictionary().MustFindKey("C").GetArray()[1].GetReal();
+    return getTextColor(0);
+}
 
-    return 0.0;
+double PdfOutlineItem::GetTextColorGreen() const
+{
+    return getTextColor(1);
 }
 
 double PdfOutlineItem::GetTextColorBlue() const
 {
-    if (this->GetObject().GetDictionary().HasKey("C"))
-        return this->GetObject().GetDictionary().MustFindKey("C").GetArray()[2].GetReal();
-
-    return 0.0;
+    return getTextColor(2);
 }
 
 PdfOutlines::PdfOutlines(PdfDocument& doc)
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index e34ea77..afed8b3 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -193,6 +193,7 @@ private:
     void SetLast(PdfOutlineItem* item);
     void SetFirst(PdfOutlineItem* item);
 
+    double getTextColor(unsigned component) const;
     void addToCount(int64_t visible);
     int64_t countVisible() const;
     void InsertChildInternal(PdfOutlineItem* item, bool checkParent);
-- 
2.43.0


From 5f38fb2bc5d80b0d5d647649a2122c43b1d9028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:10 +0000
Subject: [PATCH 116/223] fix: indirect values in a destination are refused

---
 src/pdfmm/base/PdfDestination.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index 112154a..4d53eef 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -175,7 +175,7 @@ PdfDestinationType PdfDestination::GetType() const
     if (arr.size() == 0)
         return PdfDestinationType::Unknown;
 
-    PdfName tp = arr[1].GetName();
+    PdfName tp = arr.MustFindAt(1).GetName();
     if (tp == "XYZ")
         return PdfDestinationType::XYZ;
     else if (tp == "Fit")
@@ -207,7 +207,7 @@ double PdfDestination::GetDValue() const
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
     }
 
-    return GetArray()[2].GetReal();
+    return GetArray().MustFindAt(2).GetReal();
 }
 
 double PdfDestination::GetLeft() const
@@ -221,7 +221,7 @@ double PdfDestination::GetLeft() const
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
     }
 
-    return GetArray()[2].GetReal();
+    return GetArray().MustFindAt(2).GetReal();
 }
 
 PdfRect PdfDestination::GetRect() const
@@ -230,8 +230,8 @@ PdfRect PdfDestination::GetRect() const
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
 
     auto& arr = GetArray();
-    return PdfRect(arr[2].GetReal(), arr[3].GetReal(),
-        arr[4].GetReal() - arr[2].GetReal(), arr[5].GetReal() - arr[3].GetReal());
+    return PdfRect(arr.MustFindAt(2).GetReal(), arr.MustFindAt(3).GetReal(),
+        arr.MustFindAt(4).GetReal() - arr.MustFindAt(2).GetReal(), arr.MustFindAt(5).GetReal() - arr.MustFindAt(3).GetReal());
 }
 
 double PdfDestination::GetTop() const
@@ -241,12 +241,12 @@ double PdfDestination::GetTop() const
     switch (tp)
     {
         case PdfDestinationType::XYZ:
-            return arr[3].GetReal();
+            return arr.MustFindAt(3).GetReal();
         case PdfDestinationType::FitH:
         case PdfDestinationType::FitBH:
-            return arr[2].GetReal();
+            return arr.MustFindAt(2).GetReal();
         case PdfDestinationType::FitR:
-            return arr[5].GetReal();
+            return arr.MustFindAt(5).GetReal();
         case PdfDestinationType::Fit:
         case PdfDestinationType::FitV:
         case PdfDestinationType::FitB:
@@ -264,5 +264,5 @@ double PdfDestination::GetZoom() const
     if (GetType() != PdfDestinationType::XYZ)
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
 
-    return GetArray()[4].GetReal();
+    return GetArray().MustFindAt(4).GetReal();
 }
-- 
2.43.0


From 4809035733381abdad0df273b51d76efe8f219f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:39 +0000
Subject: [PATCH 117/223] fix: name trees are sorted and searched by the text
 of the keys rather than by their bytes

---
 src/pdfmm/base/PdfNameTree.cpp | 53 ++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index bde7349..a141cc6 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -6,11 +6,15 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfNameTree.h"
 
+#include <utfcpp/utf8.h>
+#include <pdfmm/private/PdfEncodingPrivate.h>
+
 #include "PdfDocument.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
 #include "PdfOutputDevice.h"
 
+using namespace std;
 using namespace mm;
 
 #define BALANCE_TREE_MAX 65
@@ -19,6 +23,8 @@ using namespace mm;
 #define BALANCE_TREE_MAX 9
 */
 
+static string getKeyBytes(const PdfString& key);
+
 class PdfNameTreeNode
 {
 public:
@@ -113,7 +119,7 @@ bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
                     *it = value;
                     break;
                 }
-                else if (it->GetString().GetString() > key.GetString())
+                else if (getKeyBytes(it->GetString()) > getKeyBytes(key))
                 {
                     it = array.insert(it, value); // array.insert invalidates the iterator
                     it = array.insert(it, key);
@@ -422,10 +428,10 @@ PdfNameLimits PdfNameTree::CheckLimits(const PdfObject& obj, const PdfString& ke
         if (limits.GetSize() < 2)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid name tree limits");
 
-        if (limits[0].GetString().GetString() > key.GetString())
+        if (getKeyBytes(limits[0].GetString()) > getKeyBytes(key))
             return PdfNameLimits::Before;
 
-        if (limits[1].GetString().GetString() < key.GetString())
+        if (getKeyBytes(limits[1].GetString()) < getKeyBytes(key))
             return PdfNameLimits::After;
     }
     else
@@ -503,3 +509,44 @@ PdfObject* PdfNameTree::GetDestsNode(bool create) const
 {
     return this->GetRootNode("Dests", create);
 }
+
+// The keys of name trees are sorted by the bytes
+// they have in the document, not by their text
+string getKeyBytes(const PdfString& key)
+{
+    string ret;
+    switch (key.GetState())
+    {
+        case PdfStringState::RawBuffer:
+        {
+            auto& raw = key.GetRawData();
+            ret.assign(raw.data(), raw.size());
+            break;
+        }
+        case PdfStringState::PdfDocEncoding:
+        {
+            (void)mm::TryConvertUTF8ToPdfDocEncoding(key.GetString(), ret);
+            break;
+        }
+        case PdfStringState::Unicode:
+        {
+            u16string utf16;
+            auto& text = key.GetString();
+            utf8::utf8to16(text.data(), text.data() + text.size(), std::back_inserter(utf16));
+            ret = "\xFE\xFF";
+            for (char16_t ch : utf16)
+            {
+                ret.push_back((char)(ch >> 8));
+                ret.push_back((char)(ch & 0xFF));
+            }
+            break;
+        }
+        default:
+        {
+            ret = key.GetString();
+            break;
+        }
+    }
+
+    return ret;
+}
-- 
2.43.0


From 65732a08cd9588e0aae37dbc2f920331f0335050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:39 +0000
Subject: [PATCH 118/223] fix: adding to a name tree with empty Kids reads out
 of bounds

---
 src/pdfmm/base/PdfNameTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index a141cc6..e448d29 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -31,7 +31,8 @@ public:
     PdfNameTreeNode(PdfNameTreeNode* parent, PdfObject* obj)
         : m_Parent(parent), m_Object(obj)
     {
-        m_HasKids = m_Object->GetDictionary().HasKey("Kids");
+        auto kids = m_Object->GetDictionary().FindKey("Kids");
+        m_HasKids = kids != nullptr && !(kids->IsArray() && kids->GetArray().GetSize() == 0);
     }
 
     bool AddValue(const PdfString& key, const PdfObject& value);
-- 
2.43.0


From 3d208850a28823454f169f05932af336dce9929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:57 +0000
Subject: [PATCH 119/223] fix: keys of a name tree not in PDFDocEncoding
 prevent its enumeration

---
 src/pdfmm/base/PdfNameTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index e448d29..bb96d5c 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -483,8 +483,12 @@ void PdfNameTree::AddToDictionary(PdfObject& obj, PdfDictionary& dict)
         // so we loop in sets of two - getting each pair
         while (it != names.end())
         {
-            // convert all strings into names 
-            PdfName name(it->GetString().GetString());
+            // convert all strings into names. Names can't hold
+            // all characters: use the bytes of the string if so
+            auto& key = it->GetString();
+            auto& text = key.GetString();
+            PdfName name = key.GetState() == PdfStringState::Unicode
+                ? PdfName::FromRaw(getKeyBytes(key)) : PdfName(text);
             it++;
             if (it == names.end())
             {
-- 
2.43.0


From 0e43cb1762c11df319f354016fceae03c872c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:39 +0000
Subject: [PATCH 120/223] fix: translations applied to rotated matrices miss a
 component

---
 src/pdfmm/base/PdfMathBase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfMathBase.h b/src/pdfmm/base/PdfMathBase.h
index fd868b2..3e3be75 100644
--- a/src/pdfmm/base/PdfMathBase.h
+++ b/src/pdfmm/base/PdfMathBase.h
@@ -40,6 +40,7 @@ namespace mm
         static void Apply(double m[6], double value)
         {
             m[4] = value * m[0] + m[4];
+            m[5] = value * m[1] + m[5];
         }
     };
 
@@ -58,6 +59,7 @@ namespace mm
 
         static void Apply(double m[6], double value)
         {
+            m[4] = value * m[2] + m[4];
             m[5] = value * m[3] + m[5];
         }
     };
-- 
2.43.0


From 98671b675ba4edfb937a77688994848ec5819f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:45 +0000
Subject: [PATCH 121/223] fix: reading from null devices fails or leaves the
 buffer unset

---
 src/pdfmm/base/PdfStreamDevice.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 6f3fc06..9253927 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -486,11 +486,11 @@ void NullStreamDevice::writeBuffer(const char* buffer, size_t size)
 
 size_t NullStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 {
-    (void)buffer;
-    size_t prevpos = m_Position;
-    m_Position = std::min(m_Length, m_Position + size);
+    size_t readCount = std::min(size, m_Length - m_Position);
+    std::memset(buffer, 0, readCount);
+    m_Position += readCount;
     eof = m_Position == m_Length;
-    return m_Position - prevpos;
+    return readCount;
 }
 
 bool NullStreamDevice::readChar(char& ch)
@@ -500,7 +500,7 @@ bool NullStreamDevice::readChar(char& ch)
         return false;
 
     m_Position++;
-    return false;
+    return true;
 }
 
 void NullStreamDevice::seek(ssize_t offset, SeekDirection direction)
-- 
2.43.0


From 000c44dca222561480b518d1ab7521d7776ed09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:45 +0000
Subject: [PATCH 122/223] fix: copying from and flushing devices without
 checking the access

---
 src/pdfmm/base/PdfInputStream.cpp  | 2 ++
 src/pdfmm/base/PdfOutputStream.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfInputStream.cpp b/src/pdfmm/base/PdfInputStream.cpp
index 25a1009..2d765b5 100644
--- a/src/pdfmm/base/PdfInputStream.cpp
+++ b/src/pdfmm/base/PdfInputStream.cpp
@@ -73,6 +73,7 @@ size_t InputStream::Read(char* buffer, size_t size, bool& eof)
 
 void InputStream::CopyTo(OutputStream& stream)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
@@ -88,6 +89,7 @@ void InputStream::CopyTo(OutputStream& stream)
 
 void InputStream::CopyTo(OutputStream& stream, size_t size)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
diff --git a/src/pdfmm/base/PdfOutputStream.cpp b/src/pdfmm/base/PdfOutputStream.cpp
index f8c7eb7..b73fdb4 100644
--- a/src/pdfmm/base/PdfOutputStream.cpp
+++ b/src/pdfmm/base/PdfOutputStream.cpp
@@ -40,6 +40,7 @@ void OutputStream::Write(const char* buffer, size_t size)
 
 void OutputStream::Flush()
 {
+    checkWrite();
     flush();
 }
 
-- 
2.43.0


From 4e7e480bcb2b5290cfd4bcbe0cfc928323d6130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:45 +0000
Subject: [PATCH 123/223] fix: writing in standard streams after reading fails
 or happens elsewhere

---
 src/pdfmm/base/PdfStreamDevice.cpp | 36 ++++++++++++++++++++++++++++--
 src/pdfmm/base/PdfStreamDevice.h   |  1 +
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 9253927..fcee195 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -253,9 +253,19 @@ bool StandardStreamDevice::Eof() const
 void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 {
     PDFMM_INVARIANT(m_ostream != nullptr);
+    // NOTE: A previous read may have set eofbit, that would prevent writing
+    m_ostream->clear(m_ostream->rdstate() & ~ios_base::eofbit);
     m_ostream->write(buffer, size);
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to write the given buffer");
+
+    if (GetAccess() == DeviceAccess::ReadWrite)
+    {
+        // Some streams have distinct read and write positions
+        auto pos = m_ostream->tellp();
+        if (m_istream->tellg() != pos)
+            m_istream->seekg(pos);
+    }
 }
 
 void StandardStreamDevice::flush()
@@ -275,7 +285,9 @@ size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
         return 0;
     }
 
-    return utls::ReadBuffer(*m_istream, buffer, size, eof);
+    size_t ret = utls::ReadBuffer(*m_istream, buffer, size, eof);
+    syncWritePosition();
+    return ret;
 }
 
 bool StandardStreamDevice::readChar(char& ch)
@@ -287,7 +299,27 @@ bool StandardStreamDevice::readChar(char& ch)
         return false;
     }
 
-    return utls::ReadChar(*m_istream, ch);
+    bool ret = utls::ReadChar(*m_istream, ch);
+    syncWritePosition();
+    return ret;
+}
+
+void StandardStreamDevice::syncWritePosition()
+{
+    if (GetAccess() != DeviceAccess::ReadWrite)
+        return;
+
+    // Some streams have distinct read and write positions
+    streamoff pos = (streamoff)::getPosition(*m_istream);
+    if ((streamoff)::getPosition(*m_ostream) == pos)
+        return;
+
+    // NOTE: Keep the eofbit that was set by reading
+    bool eof = m_Stream->eof();
+    m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
+    m_ostream->seekp(pos);
+    if (eof)
+        m_Stream->setstate(ios_base::eofbit);
 }
 
 bool StandardStreamDevice::peek(char& ch) const
diff --git a/src/pdfmm/base/PdfStreamDevice.h b/src/pdfmm/base/PdfStreamDevice.h
index 79a026e..f41ccd2 100644
--- a/src/pdfmm/base/PdfStreamDevice.h
+++ b/src/pdfmm/base/PdfStreamDevice.h
@@ -72,6 +72,7 @@ protected:
 
 private:
     StandardStreamDevice(DeviceAccess access, std::ios* stream, std::istream* istream, std::ostream* ostream, bool streamOwned);
+    void syncWritePosition();
 
 private:
     std::ios* m_Stream;
-- 
2.43.0


From 2a5fefa68358b425070a26e06f69b220184763c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:45 +0000
Subject: [PATCH 124/223] fix: refused seeks make standard streams unusable

---
 src/pdfmm/base/PdfStreamDevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index fcee195..85ccf65 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -364,7 +364,11 @@ void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
     }
 
     if (m_Stream->fail())
+    {
+        // NOTE: A refused seek doesn't make the stream unusable
+        m_Stream->clear(m_Stream->rdstate() & ~ios_base::failbit);
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek to given position in the stream");
+    }
 }
 
 FileStreamDevice::FileStreamDevice(const string_view& filepath)
-- 
2.43.0


From 786dd649efdc056b1d3b17d629c7be0a3d44ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:45 +0000
Subject: [PATCH 125/223] fix: opening existing files truncates them and
 creating them for reading fails

---
 src/pdfmm/base/PdfStreamDevice.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 85ccf65..80eba41 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -440,6 +440,7 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::CreateNew:
             if (fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must not exist");
+            openmode |= ios_base::trunc;
             break;
         case FileMode::Create:
             openmode |= ios_base::trunc;
@@ -447,8 +448,13 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::Open:
             if ((access & DeviceAccess::Write) != DeviceAccess{ } && !fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must exist");
+            // NOTE: ios_base::out alone truncates existing files
+            openmode |= ios_base::in;
             break;
         case FileMode::OpenOrCreate:
+            // NOTE: ios_base::out alone truncates existing files, while
+            // ios_base::in together with it requires the file to exist
+            openmode |= fs::exists(filename) ? ios_base::in : ios_base::trunc;
             break;
         case FileMode::Truncate:
             if (!fs::exists(filename))
-- 
2.43.0


From 68c244e1f29ce5558b7e6b7bde3453e6ac4e4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:15 +0000
Subject: [PATCH 126/223] fix: reading part of the contents of a canvas skips
 the rest of the stream

---
 src/pdfmm/base/PdfCanvasInputDevice.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfCanvasInputDevice.cpp b/src/pdfmm/base/PdfCanvasInputDevice.cpp
index 1c0cb19..b1ca465 100644
--- a/src/pdfmm/base/PdfCanvasInputDevice.cpp
+++ b/src/pdfmm/base/PdfCanvasInputDevice.cpp
@@ -102,9 +102,6 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             return count;
         }
 
-        if (size == 0)
-            return count;
-
         if (m_deviceSwitchOccurred)
         {
             // Handle device switch by inserting
@@ -115,7 +112,10 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             count += 1;
             m_deviceSwitchOccurred = false;
             if (size == 0)
+            {
+                eof = false;
                 return count;
+            }
         }
 
         // Span reads into multple input devices
@@ -124,6 +124,12 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
         read = device->Read(buffer + count, size, eof);
         size -= read;
         count += read;
+        if (size == 0)
+        {
+            // NOTE: The device may have more data, don't pop another one
+            eof = false;
+            return count;
+        }
     }
 }
 
-- 
2.43.0


From 057c85ddf94115316a3377d3d4e53c12660f3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:15 +0000
Subject: [PATCH 127/223] fix: relative seeks of read/write standard streams
 are performed twice

---
 src/pdfmm/base/PdfStreamDevice.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 80eba41..dc06ddb 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -357,11 +357,17 @@ void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
         ::seek(*m_istream, offset, direction);
     }
 
-    if ((GetAccess() & DeviceAccess::Write) != DeviceAccess{ })
+    if (GetAccess() == DeviceAccess::Write)
     {
         PDFMM_INVARIANT(m_ostream != nullptr);
         ::seek(*m_ostream, offset, direction);
     }
+    else if (!m_Stream->fail())
+    {
+        // NOTE: The position may be shared, hence a
+        // relative seek can't be repeated for writing
+        syncWritePosition();
+    }
 
     if (m_Stream->fail())
     {
-- 
2.43.0


From b6f2dc2110213b04b36690e852690f92b618f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:38 +0000
Subject: [PATCH 128/223] fix: integral zeroes of reals written without
 decimals are removed

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 178befc..fd000d6 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1198,6 +1198,9 @@ void utls::ReadInt16BE(const char* buf, int16_t& value)
 void removeTrailingZeroes(string& str)
 {
     // Remove trailing zeroes
+    if (str.find('.') == string::npos)
+        return;
+
     const char* cursor = str.data();
     size_t len = str.size();
     while (cursor[len - 1] == '0')
-- 
2.43.0


From 8f1ff23fe5344a92ec570ef29ab5358136b75053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:38 +0000
Subject: [PATCH 129/223] fix: formatting integers with the most digits fails

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index fd000d6..b4b3066 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -72,7 +72,8 @@ template<typename TInt, class = typename std::enable_if_t<std::is_integral_v<TIn
 void formatTo(string& str, TInt value)
 {
     str.clear();
-    array<char, numeric_limits<TInt>::digits10> arr;
+    // NOTE: One more than digits10 is needed for all the values, plus the sign
+    array<char, numeric_limits<TInt>::digits10 + 2> arr;
     auto res = std::to_chars(arr.data(), arr.data() + arr.size(), value);
     str.append(arr.data(), res.ptr - arr.data());
 }
-- 
2.43.0


From 1f5ec9c5023ca0ce041534b34ba19b272924165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 130/223] fix: parsing dates reads past the end of views that
 are not null terminated

---
 src/pdfmm/base/PdfDate.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..cf7e390 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -211,10 +211,13 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr)
+    if (dateStr.data() == nullptr)
         return false;
 
+    // NOTE: The view may be not null terminated
+    string date(dateStr);
+    const char* cursor = date.c_str();
+
     if (*cursor == 'D')
     {
         cursor++;
@@ -303,10 +306,13 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr || *cursor == '\0')
+    if (dateStr.empty())
         return false;
 
+    // NOTE: The view may be not null terminated
+    string date(dateStr);
+    const char* cursor = date.c_str();
+
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
         return false;
 
-- 
2.43.0


From 850e389275f6529018a49de4b09cae5cc8315bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 131/223] fix: dates without month or day are read as of the
 previous year

---
 src/pdfmm/base/PdfDate.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index cf7e390..8facffc 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -383,6 +383,13 @@ void inferTimeComponents(int y, int m, int d, int h, int M, int s,
     bool hasZoneShift, int zoneShift, int zoneHour, int zoneMin,
     chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
+    // ISO 32000-1:2008, 7.9.4 Dates:
+    // "The default values for MM and DD shall be both 01"
+    if (m == 0)
+        m = 1;
+    if (d == 0)
+        d = 1;
+
     secondsFromEpoch = (chrono::local_days(chrono::year(y) / m / d) + chrono::hours(h) + chrono::minutes(M) + chrono::seconds(s)).time_since_epoch();
     if (hasZoneShift)
     {
-- 
2.43.0


From f85c7e3a9b8aba440ce436d6e3188f424e7447e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 132/223] fix: what follows the seconds of a date, including
 the offset after a fraction, is ignored

---
 src/pdfmm/base/PdfDate.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 8facffc..be97cfc 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -257,12 +257,15 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
 
     PEEK_DATE_CHAR(cursor, zoneShift);
 
+    // Nothing else is expected after the seconds
+    return false;
+
 ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+        if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
+            return false;
 
         if (*cursor == '\'')
         {
@@ -344,15 +347,31 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     if (!parseFixLenNumber(cursor, 2, 0, 59, s))
         return false;
 
+    // The seconds can have a fraction, which is ignored
+    if (*cursor == '.')
+    {
+        cursor++;
+        if (!isdigit((unsigned char)*cursor))
+            return false;
+
+        while (isdigit((unsigned char)*cursor))
+            cursor++;
+    }
+
     if (!tryReadShiftChar(cursor, zoneShift))
+    {
+        if (*cursor != '\0')
+            return false;
+
         goto End;
+    }
 
 ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+        if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
+            return false;
 
         if (*cursor == ':')
         {
@@ -454,7 +473,7 @@ bool parseFixLenNumber(const char*& in, unsigned maxLength, int min, int max, in
     ret = 0;
     for (unsigned i = 0; i < maxLength; i++)
     {
-        if (in == nullptr || !isdigit(*in))
+        if (in == nullptr || !isdigit((unsigned char)*in))
             return i != 0;
 
         ret = ret * 10 + (*in - '0');
-- 
2.43.0


From 0f148d1f399c0b8aed28a0b4bf1fa0ad3aa8a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 133/223] fix: malformed dates prevent reading all the metadata

---
 src/pdfmm/base/PdfInfo.cpp     | 18 ++++++++++++++----
 src/pdfmm/private/XMPUtils.cpp | 15 +++++++++++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfInfo.cpp b/src/pdfmm/base/PdfInfo.cpp
index 672721c..272b5e8 100644
--- a/src/pdfmm/base/PdfInfo.cpp
+++ b/src/pdfmm/base/PdfInfo.cpp
@@ -150,8 +150,13 @@ nullable<PdfDate> PdfInfo::GetCreationDate() const
     auto datestr = this->getStringFromInfoDict("CreationDate");
     if (datestr == nullptr)
         return nullptr;
-    else
-        return PdfDate::Parse(*datestr);
+
+    // NOTE: A malformed date shall not prevent reading the rest
+    PdfDate date;
+    if (!PdfDate::TryParse(*datestr, date))
+        return nullptr;
+
+    return date;
 }
 
 nullable<PdfDate> PdfInfo::GetModDate() const
@@ -159,8 +164,13 @@ nullable<PdfDate> PdfInfo::GetModDate() const
     auto datestr = this->getStringFromInfoDict("ModDate");
     if (datestr == nullptr)
         return nullptr;
-    else
-        return PdfDate::Parse(*datestr);
+
+    // NOTE: A malformed date shall not prevent reading the rest
+    PdfDate date;
+    if (!PdfDate::TryParse(*datestr, date))
+        return nullptr;
+
+    return date;
 }
 
 nullable<const PdfName&> PdfInfo::GetTrapped() const
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index f653d4d..1262347 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -104,12 +104,19 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
         metadata.Producer = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "xmp", "CreateDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.CreationDate = PdfDate::ParseW3C(*text);
+    PdfDate date;
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.CreationDate = date;
+    }
 
     childElement = utls::FindChildElement(description, "xmp", "ModifyDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.ModDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.ModDate = date;
+    }
 
     return metadata;
 }
-- 
2.43.0


From 267fbffbb2226fc580fcab5b123adedc19459534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 134/223] fix: keywords are read together with their separators

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index b4b3066..8bdf699 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -463,13 +463,14 @@ vector<string> mm::ToPdfKeywordsList(const string_view& str)
     string token;
     while (it != end)
     {
+        auto tokenEnd = it;
         auto ch = (char32_t)utf8::next(it, end);
         switch (ch)
         {
             case U'\r':
             case U'\n':
             {
-                token = string(tokenStart, it);
+                token = string(tokenStart, tokenEnd);
                 if (token.length() != 0)
                     ret.push_back(std::move(token));
                 tokenStart = it;
-- 
2.43.0


From 51bfb792708d0522e40d9e09da964db58e1b5fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 135/223] fix: creator is not read from XMP metadata

---
 src/pdfmm/private/XMPUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index 1262347..291e46d 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -97,7 +97,7 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
 
     childElement = utls::FindChildElement(description, "xmp", "CreatorTool");
     if (childElement != nullptr)
-        metadata.Creator = getListElementText(childElement);
+        metadata.Creator = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "pdf", "Producer");
     if (childElement != nullptr)
-- 
2.43.0


From 0b5bad51009a7eb57bd46792a039f9902cf54e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 136/223] fix: ampersands are lost in XMP metadata

---
 src/pdfmm/base/PdfXMPPacket.cpp | 2 +-
 src/pdfmm/private/XMPUtils.cpp  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfXMPPacket.cpp b/src/pdfmm/base/PdfXMPPacket.cpp
index 492e3bd..6dbf7c7 100644
--- a/src/pdfmm/base/PdfXMPPacket.cpp
+++ b/src/pdfmm/base/PdfXMPPacket.cpp
@@ -235,7 +235,7 @@ void normalizeElement(xmlDocPtr doc, xmlNodePtr elem)
             continue;
 
         auto value = utls::GetAttributeValue(attr);
-        if (xmlNewChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
+        if (xmlNewTextChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
             THROW_LIBXML_EXCEPTION("Can't create value replacement node");
 
         attribsToRemove.push_back(attr);
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index 291e46d..6a463c2 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -290,7 +290,8 @@ void addXMPProperty(xmlDocPtr doc, xmlNodePtr description,
         }
         default:
         {
-            xmlNodeSetContent(element, XMLCHAR values[0].data());
+            // NOTE: xmlNodeSetContent() expects escaped content
+            xmlNodeAddContent(element, XMLCHAR values[0].data());
             break;
         }
     }
@@ -337,7 +338,8 @@ void utls::SetListNodeContent(xmlDocPtr doc, xmlNodePtr node, XMPListType seqTyp
                 THROW_LIBXML_EXCEPTION(utls::Format("Can't set xml:lang attribute on rdf:li node"));
         }
 
-        xmlNodeSetContent(liElem, XMLCHAR view.data());
+        // NOTE: xmlNodeSetContent() expects escaped content
+        xmlNodeAddContent(liElem, XMLCHAR view.data());
     }
 
     newNode = innerElem->children;
-- 
2.43.0


From a1465fb93904c35bd8fdaf09413746717baf7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 137/223] fix: XMP packet is taken or created regardless of the
 existing metadata

---
 src/pdfmm/base/PdfMetadata.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 95bc023..a24256b 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -289,6 +289,7 @@ void PdfMetadata::SyncXMPMetadata(bool forceCreationXMP)
 
 unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         return nullptr;
 
@@ -304,6 +305,7 @@ unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 
 void PdfMetadata::EnsureXMPMetadata()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         mm::UpdateOrCreateXMPMetadata(m_packet, m_metadata);
 
-- 
2.43.0


From 5e9f78e11318fadf8346347b096e54fe6fda37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 138/223] fix: metadata of the previous document is returned
 after loading another one

---
 src/pdfmm/base/PdfDocument.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index f83b8d3..8da41d1 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -74,6 +74,7 @@ PdfDocument::~PdfDocument()
 void PdfDocument::Clear() 
 {
     m_FontManager.Clear();
+    m_Metadata.Invalidate();
     m_Catalog = nullptr;
     m_Info = nullptr;
     m_Pages = nullptr;
-- 
2.43.0


From c2c7180792e6b3b9b4fe9bb9b5db548634a1a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 139/223] fix: XMP metadata that differ from the information
 dictionary are taken as synced

---
 src/pdfmm/base/PdfMetadata.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index a24256b..eb24453 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -22,7 +22,7 @@ PdfMetadata::PdfMetadata(PdfDocument& doc)
 void PdfMetadata::SetTitle(nullable<const PdfString&> title, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Title == title)
+    if (m_metadata.Title == title && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetTitle(title);
@@ -45,7 +45,7 @@ const nullable<PdfString>& PdfMetadata::GetTitle() const
 void PdfMetadata::SetAuthor(nullable<const PdfString&> author, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Author == author)
+    if (m_metadata.Author == author && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetAuthor(author);
@@ -68,7 +68,7 @@ const nullable<PdfString>& PdfMetadata::GetAuthor() const
 void PdfMetadata::SetSubject(nullable<const PdfString&> subject, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Subject == subject)
+    if (m_metadata.Subject == subject && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetSubject(subject);
@@ -105,7 +105,7 @@ void PdfMetadata::SetKeywords(vector<string> keywords, bool syncXMP)
 void PdfMetadata::setKeywords(nullable<const PdfString&> keywords, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Keywords == keywords)
+    if (m_metadata.Keywords == keywords && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetKeywords(keywords);
@@ -131,7 +131,7 @@ vector<string> PdfMetadata::GetKeywords() const
 void PdfMetadata::SetCreator(nullable<const PdfString&> creator, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Creator == creator)
+    if (m_metadata.Creator == creator && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetCreator(creator);
@@ -154,7 +154,7 @@ const nullable<PdfString>& PdfMetadata::GetCreator() const
 void PdfMetadata::SetProducer(nullable<const PdfString&> producer, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.Producer == producer)
+    if (m_metadata.Producer == producer && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetProducer(producer);
@@ -177,7 +177,7 @@ const nullable<PdfString>& PdfMetadata::GetProducer() const
 void PdfMetadata::SetCreationDate(nullable<PdfDate> date, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.CreationDate == date)
+    if (m_metadata.CreationDate == date && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetCreationDate(date);
@@ -197,7 +197,7 @@ const nullable<PdfDate>& PdfMetadata::GetCreationDate() const
 void PdfMetadata::SetModifyDate(nullable<PdfDate> date, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.ModDate == date)
+    if (m_metadata.ModDate == date && (!syncXMP || m_xmpSynced))
         return;
 
     m_doc->GetOrCreateInfo().SetModDate(date);
@@ -261,7 +261,7 @@ PdfALevel PdfMetadata::GetPdfALevel() const
 void PdfMetadata::SetPdfALevel(PdfALevel level, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.PdfaLevel == level)
+    if (m_metadata.PdfaLevel == level && (!syncXMP || m_xmpSynced))
         return;
 
     if (level != PdfALevel::Unknown)
@@ -384,7 +384,14 @@ void PdfMetadata::ensureInitialized()
         if (m_metadata.ModDate == nullptr)
             m_metadata.ModDate = xmpMetadata.ModDate;
         m_metadata.PdfaLevel = xmpMetadata.PdfaLevel;
-        m_xmpSynced = true;
+        m_xmpSynced = m_metadata.Title == xmpMetadata.Title
+            && m_metadata.Author == xmpMetadata.Author
+            && m_metadata.Subject == xmpMetadata.Subject
+            && m_metadata.Keywords == xmpMetadata.Keywords
+            && m_metadata.Creator == xmpMetadata.Creator
+            && m_metadata.Producer == xmpMetadata.Producer
+            && m_metadata.CreationDate == xmpMetadata.CreationDate
+            && m_metadata.ModDate == xmpMetadata.ModDate;
     }
 
     m_initialized = true;
@@ -397,5 +404,4 @@ void PdfMetadata::syncXMPMetadata(bool forceCreationXMP)
 
     mm::UpdateOrCreateXMPMetadata(m_packet, m_metadata);
     m_doc->GetCatalog().SetMetadataStreamValue(m_packet->ToString());
-    m_xmpSynced = true;
 }
-- 
2.43.0


From dd88f46e20776f83170dcbde96cd1905a1c1604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:45 +0000
Subject: [PATCH 140/223] fix: updates of documents that were not loaded are
 written without the rest of the file

---
 src/pdfmm/base/PdfMemDocument.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 7762c5e..a5d7bf3 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -267,6 +267,9 @@ void PdfMemDocument::SaveUpdate(const string_view& filename, PdfSaveOptions opts
 
 void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
 {
+    if (m_PrevXRefOffset < 0)
+        PDFMM_RAISE_ERROR(PdfErrorCode::NotLoadedForUpdate);
+
     beforeWrite(opts);
 
     PdfWriter writer(this->GetObjects(), this->GetTrailer().GetObject());
-- 
2.43.0


From 8f60919859fab503abc03e7ef526db8605da2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:23 +0000
Subject: [PATCH 141/223] fix: placeholders of a signature are left in the
 document after signing

---
 src/pdfmm/base/PdfObject.h      |  1 +
 src/pdfmm/base/PdfSignature.cpp |  8 ++++++++
 src/pdfmm/base/PdfSignature.h   |  9 +++++++++
 src/pdfmm/base/PdfSigner.cpp    | 10 +++++++---
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.h b/src/pdfmm/base/PdfObject.h
index 5b7e4db..d82c97c 100644
--- a/src/pdfmm/base/PdfObject.h
+++ b/src/pdfmm/base/PdfObject.h
@@ -41,6 +41,7 @@ class PDFMM_API PdfObject
     friend class PdfDataContainer;
     friend class PdfObjectStreamParser;
     friend class PdfParser;
+    friend class PdfSignature;
 
 public:
     static PdfObject Null;
diff --git a/src/pdfmm/base/PdfSignature.cpp b/src/pdfmm/base/PdfSignature.cpp
index c0a25a1..77a39ed 100644
--- a/src/pdfmm/base/PdfSignature.cpp
+++ b/src/pdfmm/base/PdfSignature.cpp
@@ -113,6 +113,14 @@ void PdfSignature::PrepareForSigning(const string_view& filter,
     m_ValueObj->GetDictionary().AddKey("ByteRange", PdfVariant(std::move(byteRangeData)));
 }
 
+void PdfSignature::SetSigned(const bufferview& contents, const PdfArray& byteRange)
+{
+    // NOTE: The object has been written already: don't set it dirty
+    auto& dict = m_ValueObj->GetDictionary();
+    dict.MustGetKey(PdfName::KeyContents).Assign(PdfString::FromRaw(contents));
+    dict.MustGetKey("ByteRange").Assign(byteRange);
+}
+
 void PdfSignature::SetSignatureLocation(nullable<const PdfString&> text)
 {
     if (m_ValueObj == nullptr)
diff --git a/src/pdfmm/base/PdfSignature.h b/src/pdfmm/base/PdfSignature.h
index ac32201..831c810 100644
--- a/src/pdfmm/base/PdfSignature.h
+++ b/src/pdfmm/base/PdfSignature.h
@@ -18,6 +18,9 @@
 namespace mm {
 
 class PdfAcroForm;
+class PdfMemDocument;
+class PdfSigner;
+class StreamDevice;
 
 enum class PdfCertPermission
 {
@@ -38,6 +41,8 @@ struct PdfSignatureBeacons
 class PDFMM_API PdfSignature : public PdfField
 {
     friend class PdfField;
+    friend void SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& signer,
+        PdfSignature& signature, PdfSaveOptions saveOptions);
 
 private:
     PdfSignature(PdfAcroForm& acroform, const std::shared_ptr<PdfField>& parent);
@@ -147,6 +152,10 @@ protected:
 private:
     void init(PdfAcroForm& acroForm);
 
+    // To be called by SignDocument: replaces the values that
+    // were prepared for signing with the ones written
+    void SetSigned(const bufferview& contents, const PdfArray& byteRange);
+
 private:
     PdfObject* m_ValueObj;
 };
diff --git a/src/pdfmm/base/PdfSigner.cpp b/src/pdfmm/base/PdfSigner.cpp
index 0979864..d2f1591 100644
--- a/src/pdfmm/base/PdfSigner.cpp
+++ b/src/pdfmm/base/PdfSigner.cpp
@@ -18,7 +18,7 @@ constexpr size_t BufferSize = 65536;
 static size_t readForSignature(StreamDevice& device,
     size_t conentsBeaconOffset, size_t conentsBeaconSize,
     char* buffer, size_t size);
-static void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
+static PdfArray adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
     size_t conentsBeaconOffset, size_t conentsBeaconSize, charbuff& buffer);
 static void setSignature(StreamDevice& device, const string_view& sigData,
     size_t conentsBeaconOffset, charbuff& buffer);
@@ -61,7 +61,7 @@ void mm::SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& sign
     device.Flush();
 
     charbuff buffer;
-    adjustByteRange(device, *beacons.ByteRangeOffset, *beacons.ContentsOffset,
+    auto byteRange = adjustByteRange(device, *beacons.ByteRangeOffset, *beacons.ContentsOffset,
         beacons.ContentsBeacon.size(), buffer);
     device.Flush();
 
@@ -86,6 +86,9 @@ void mm::SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& sign
     signatureBuf.resize(beaconSize);
     setSignature(device, signatureBuf, *beacons.ContentsOffset, buffer);
     device.Flush();
+
+    // Replace the placeholders also in the document
+    signature.SetSigned(signatureBuf, byteRange);
 }
 
 size_t readForSignature(StreamDevice& device, size_t conentsBeaconOffset, size_t conentsBeaconSize,
@@ -126,7 +129,7 @@ size_t readForSignature(StreamDevice& device, size_t conentsBeaconOffset, size_t
     return readSize + bufferSize;
 }
 
-void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
+PdfArray adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
     size_t conentsBeaconOffset, size_t conentsBeaconSize, charbuff& buffer)
 {
     // Get final position
@@ -139,6 +142,7 @@ void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
 
     device.Seek(byteRangeOffset);
     arr.Write(device, PdfWriteFlags::None, { }, buffer);
+    return arr;
 }
 
 void setSignature(StreamDevice& device, const string_view& contentsData,
-- 
2.43.0


From 5c6a2939e4dcc441ebf35c1da941efe7eb96d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 142/223] fix: the maximum length of text fields is ignored

---
 src/pdfmm/base/PdfTextBox.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 6f3ceb2..1f67bbb 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -44,7 +44,10 @@ void PdfTextBox::SetText(nullable<const PdfString&> text)
 
         // if text is longer than maxlen, truncate it
         int64_t maxLength = this->GetMaxLen();
-        if (maxLength != -1 && text->GetString().length() > (unsigned)maxLength)
+        // NOTE: The limit is in characters: don't count UTF-8 continuation bytes
+        auto& str = text->GetString();
+        int64_t length = std::count_if(str.begin(), str.end(), [](char ch) { return (ch & 0xC0) != 0x80; });
+        if (maxLength != -1 && length > maxLength)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Unable to set text larger MaxLen");
 
         GetDictionary().AddKey(key, *text);
@@ -76,7 +79,7 @@ int64_t PdfTextBox::GetMaxLen() const
 {
     int64_t ret;
     auto found = GetDictionary().FindKeyParent("MaxLen");
-    if (found == nullptr || found->TryGetNumber(ret))
+    if (found == nullptr || !found->TryGetNumber(ret))
         return -1;
 
     return ret;
-- 
2.43.0


From 470f0ab98fd78472c0406d270c267de175cb1e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 143/223] fix: spell checking and scrolling of fields are
 reported inverted

---
 src/pdfmm/base/PdfChoiceField.cpp | 2 +-
 src/pdfmm/base/PdfTextBox.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index 12188c0..ee20d12 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -184,7 +184,7 @@ void PdChoiceField::SetSpellcheckingEnabled(bool spellCheck)
 
 bool PdChoiceField::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), false);
 }
 
 void PdChoiceField::SetSorted(bool sorted)
diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 1f67bbb..ae24c50 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -122,7 +122,7 @@ void PdfTextBox::SetSpellcheckingEnabled(bool spellcheck)
 
 bool PdfTextBox::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), false);
 }
 
 void PdfTextBox::SetScrollBarsEnabled(bool scroll)
@@ -132,7 +132,7 @@ void PdfTextBox::SetScrollBarsEnabled(bool scroll)
 
 bool PdfTextBox::IsScrollBarsEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), false);
 }
 
 void PdfTextBox::SetCombs(bool combs)
-- 
2.43.0


From 3b38e19265e5748e6d3ddffea4b44664476e0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 144/223] fix: focus leave actions of fields are set with a
 wrong name

---
 src/pdfmm/base/PdfField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 428a2d1..10c3dd5 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -769,7 +769,7 @@ void PdfField::SetFocusEnterAction(const PdfAction& action)
 
 void PdfField::SetFocusLeaveAction(const PdfAction& action)
 {
-    this->addAlternativeAction("BI", action);
+    this->addAlternativeAction("Bl", action);
 }
 
 void PdfField::SetPageOpenAction(const PdfAction& action)
-- 
2.43.0


From 671be5ef7535bf75b4b71cd54940da73fb2b2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 145/223] fix: captions of push buttons without a widget
 dereference null

---
 src/pdfmm/base/PdfPushButton.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfPushButton.cpp b/src/pdfmm/base/PdfPushButton.cpp
index 987c1de..bacd521 100644
--- a/src/pdfmm/base/PdfPushButton.cpp
+++ b/src/pdfmm/base/PdfPushButton.cpp
@@ -39,11 +39,11 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetRolloverCaption(nullptr);
     }
@@ -51,8 +51,9 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&>  PdfPushButton::GetRolloverCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
-    if (apChars == nullptr)
+    auto widget = GetWidget();
+    const PdfAppearanceCharacteristics* apChars;
+    if (widget == nullptr || (apChars = widget->GetAppearanceCharacteristics()) == nullptr)
         return { };
 
     return apChars->GetRolloverCaption();
@@ -62,11 +63,11 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetAlternateCaption(nullptr);
     }
@@ -75,8 +76,9 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfPushButton::GetAlternateCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
-    if (apChars == nullptr)
+    auto widget = GetWidget();
+    const PdfAppearanceCharacteristics* apChars;
+    if (widget == nullptr || (apChars = widget->GetAppearanceCharacteristics()) == nullptr)
         return { };
 
     return apChars->GetAlternateCaption();
-- 
2.43.0


From eda9ead6024774e56a602df8a78f70c034927f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 146/223] fix: fields of loaded forms are not enumerated until
 they are accessed by index

---
 src/pdfmm/base/PdfAcroForm.cpp | 4 ++++
 src/pdfmm/base/PdfField.cpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ddf5fd1..46d884b 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -150,21 +150,25 @@ unsigned PdfAcroForm::GetFieldCount() const
 
 PdfAcroForm::iterator PdfAcroForm::begin()
 {
+    initFields();
     return iterator(m_Fields.begin());
 }
 
 PdfAcroForm::iterator PdfAcroForm::end()
 {
+    initFields();
     return iterator(m_Fields.end());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::begin() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.begin());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::end() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.end());
 }
 
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 10c3dd5..028a0ee 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -169,6 +169,10 @@ PdfField& PdfField::Create(const string_view& name,
     {
         for (auto field : *acroForm)
         {
+            // It may be null if the field is invalid
+            if (field == nullptr)
+                continue;
+
             // Find a candidate parent with same name and type
             auto fieldName = field->GetNameRaw();
             if (fieldName.has_value() && *fieldName == name)
-- 
2.43.0


From bd673fa4d1b93f0ebffce6c73a60800063be5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 147/223] fix: missing fields of a form dereference null

---
 src/pdfmm/base/PdfAcroForm.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 46d884b..0061296 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -96,13 +96,21 @@ PdfField& PdfAcroForm::getField(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Fields[index];
+    auto& ret = m_Fields[index];
+    if (ret == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
+    return *ret;
 }
 
 PdfField& PdfAcroForm::getField(const PdfReference& ref) const
 {
     const_cast<PdfAcroForm&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end() || m_Fields[found->second] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
+    return *m_Fields[found->second];
 }
 
 void PdfAcroForm::RemoveFieldAt(unsigned index)
@@ -114,7 +122,10 @@ void PdfAcroForm::RemoveFieldAt(unsigned index)
     if (m_Fields[index] != nullptr)
     {
         // It may be null if the field is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        // NOTE: The same reference may be found more than once
+        auto found = m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference());
+        if (found != m_fieldMap->end())
+            m_fieldMap->erase(found);
     }
 
     m_fieldArray->RemoveAt(index);
@@ -229,9 +240,11 @@ void PdfAcroForm::initFields()
     unsigned i = 0;
     for (auto obj : m_fieldArray->GetIndirectIterator())
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
+        if (obj != nullptr)
+            m_fieldMap->insert({ obj->GetIndirectReference(), i });
+
         // The field may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
             m_Fields.push_back(std::move(field));
         else
             m_Fields.push_back(nullptr);
-- 
2.43.0


From a9b4e5b87bd4376b05fa454d29f963c66dbaf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 148/223] fix: children of child fields and of loaded fields
 get a wrong parent

---
 src/pdfmm/base/PdfAcroForm.cpp                | 11 +++++------
 src/pdfmm/base/PdfAcroForm.h                  |  1 -
 src/pdfmm/base/PdfField.cpp                   |  7 +------
 src/pdfmm/base/PdfField.h                     |  2 +-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp |  1 +
 5 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 0061296..5d1f060 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -200,12 +200,6 @@ PdfField& PdfAcroForm::AddField(unique_ptr<PdfField>&& field)
     return *m_Fields.back();
 }
 
-shared_ptr<PdfField> PdfAcroForm::GetFieldPtr(const PdfReference& ref)
-{
-    PDFMM_INVARIANT(m_fieldMap != nullptr);
-    return m_Fields[(*m_fieldMap)[ref]];
-}
-
 void PdfAcroForm::SetNeedAppearances(bool needAppearances)
 {
     this->GetDictionary().AddKey("NeedAppearances", PdfVariant(needAppearances));
@@ -245,9 +239,14 @@ void PdfAcroForm::initFields()
 
         // The field may be invalid. In that case we push a placeholder
         if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
+        {
+            field->m_AcroForm = this;
             m_Fields.push_back(std::move(field));
+        }
         else
+        {
             m_Fields.push_back(nullptr);
+        }
 
         i++;
     }
diff --git a/src/pdfmm/base/PdfAcroForm.h b/src/pdfmm/base/PdfAcroForm.h
index be098f2..ed914aa 100644
--- a/src/pdfmm/base/PdfAcroForm.h
+++ b/src/pdfmm/base/PdfAcroForm.h
@@ -144,7 +144,6 @@ private:
     // To be called by PdfField
     PdfField& CreateField(PdfObject& obj, PdfFieldType type);
     PdfField& AddField(std::unique_ptr<PdfField>&& field);
-    std::shared_ptr<PdfField> GetFieldPtr(const PdfReference& ref);
 
 private:
     /** Initialize this object
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 028a0ee..ec322f4 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -353,12 +353,7 @@ PdfFieldType PdfField::getFieldType(const type_info& typeInfo)
 
 shared_ptr<PdfField> PdfField::GetPtr()
 {
-    if (m_AcroForm != nullptr)
-        return m_AcroForm->GetFieldPtr(GetObject().GetIndirectReference());
-    else if (m_Widget != nullptr)
-        return m_Widget->GetFieldPtr();
-    else
-        return nullptr;
+    return weak_from_this().lock();
 }
 
 PdfField* PdfField::getParentTyped(PdfFieldType type) const
diff --git a/src/pdfmm/base/PdfField.h b/src/pdfmm/base/PdfField.h
index 8ef8781..a0d96f1 100644
--- a/src/pdfmm/base/PdfField.h
+++ b/src/pdfmm/base/PdfField.h
@@ -22,7 +22,7 @@ class PdfPage;
 class PdfAcroForm;
 class PdfAnnotationWidget;
 
-class PDFMM_API PdfField : public PdfDictionaryElement
+class PDFMM_API PdfField : public PdfDictionaryElement, public std::enable_shared_from_this<PdfField>
 {
     friend class PdfSignature;
     friend class PdfButton;
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index c191f1a..d836d8a 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -187,6 +187,7 @@ void PdfFieldChildrenCollectionBase::initFields()
         // The annotation may be invalid. In that case we push a placeholder
         if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
         {
+            field->m_AcroForm = m_field->m_AcroForm;
             field->SetParent(m_field->GetPtr());
             m_Fields.push_back(std::move(field));
         }
-- 
2.43.0


From 3c5fdedae0ef754ec5c83926b86dbf9f18331cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 149/223] fix: states of an appearance are added to the stream
 set before

---
 src/pdfmm/base/PdfAnnotation.cpp | 2 +-
 src/pdfmm/base/PdfCheckBox.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 6ca8597..c82a9b7 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -86,7 +86,7 @@ void mm::SetAppearanceStreamForObject(PdfObject& obj, PdfXObjectForm& xobj,
     {
         // when the state is defined, then the appearance is expected to be a dictionary
         auto apInnerObj = apObj->GetDictionary().FindKey(name);
-        if (apInnerObj == nullptr || !apInnerObj->IsDictionary())
+        if (apInnerObj == nullptr || !apInnerObj->IsDictionary() || apInnerObj->HasStream())
             apInnerObj = &apObj->GetDictionary().AddKey(name, PdfDictionary());
 
         apInnerObj->GetDictionary().AddKeyIndirectSafe(state, xobj.GetObject());
diff --git a/src/pdfmm/base/PdfCheckBox.cpp b/src/pdfmm/base/PdfCheckBox.cpp
index c0ff24f..819b054 100644
--- a/src/pdfmm/base/PdfCheckBox.cpp
+++ b/src/pdfmm/base/PdfCheckBox.cpp
@@ -31,7 +31,8 @@ void PdfCheckBox::AddAppearanceStream(const PdfName& name, const PdfReference& r
     if (!GetObject().GetDictionary().HasKey("AP"))
         GetObject().GetDictionary().AddKey("AP", PdfDictionary());
 
-    if (!GetObject().GetDictionary().MustFindKey("AP").GetDictionary().HasKey("N"))
+    auto normalObj = GetObject().GetDictionary().MustFindKey("AP").GetDictionary().FindKey("N");
+    if (normalObj == nullptr || normalObj->HasStream())
         GetObject().GetDictionary().MustFindKey("AP").GetDictionary().AddKey("N", PdfDictionary());
 
     GetObject().GetDictionary().MustFindKey("AP").
-- 
2.43.0


From fbe181fe397b4009aafba480fcea2a462d08623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 150/223] fix: annotations of a page can't be enumerated

---
 src/pdfmm/base/PdfAnnotationCollection.cpp | 4 ++++
 src/pdfmm/base/PdfAnnotationCollection.h   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 7d7604a..6ff999e 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -89,21 +89,25 @@ unsigned PdfAnnotationCollection::GetCount() const
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::begin()
 {
+    initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::end()
 {
+    initAnnotations();
     return m_Annots.end();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::begin() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::end() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.end();
 }
 
diff --git a/src/pdfmm/base/PdfAnnotationCollection.h b/src/pdfmm/base/PdfAnnotationCollection.h
index 11d32f5..c07e035 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.h
+++ b/src/pdfmm/base/PdfAnnotationCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
         private:
             TListIterator m_iterator;
-- 
2.43.0


From 620048a036800c076c5d25536f37b0c37f4efc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 151/223] fix: rich media actions are refused

---
 src/pdfmm/base/PdfAction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfAction.cpp b/src/pdfmm/base/PdfAction.cpp
index e429d95..1697582 100644
--- a/src/pdfmm/base/PdfAction.cpp
+++ b/src/pdfmm/base/PdfAction.cpp
@@ -31,6 +31,7 @@ static const char* s_names[] = {
     "Rendition",
     "Trans",
     "GoTo3DView",
+    "RichMediaExecute",
 };
 
 PdfAction::PdfAction(PdfDocument& doc, PdfActionType action)
-- 
2.43.0


From b47c7188d4d3449170cfdfc2c8a8e93307901dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 152/223] fix: indirect items of choice fields are refused

---
 src/pdfmm/base/PdfChoiceField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index ee20d12..6c95d42 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -78,7 +78,7 @@ PdfString PdChoiceField::GetItem(unsigned index) const
     if (index >= optArray.GetSize())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
@@ -105,7 +105,7 @@ nullable<const PdfString&> PdChoiceField::GetItemDisplayText(int index) const
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
     }
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
-- 
2.43.0


From 4d37a03daa9de8cd959286fe83005a352f7852e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 153/223] fix: full names of fields with an indirect name are
 refused

---
 src/pdfmm/base/PdfField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index ec322f4..017e469 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -845,7 +845,7 @@ void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname
     if (parent != nullptr)
         getFullName(*parent, escapePartialNames, fullname);
 
-    const PdfObject* nameObj = dict.GetKey("T");
+    const PdfObject* nameObj = dict.FindKey("T");
     if (nameObj != nullptr)
     {
         string name = nameObj->GetString().GetString();
-- 
2.43.0


From a1a39e080e28cff3a8ee36182616bbfe62ef9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 154/223] fix: names of files are written as hexadecimal digits
 in file specifications

---
 src/pdfmm/base/PdfFileSpec.cpp | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/pdfmm/base/PdfFileSpec.cpp b/src/pdfmm/base/PdfFileSpec.cpp
index 682df41..d3e366e 100644
--- a/src/pdfmm/base/PdfFileSpec.cpp
+++ b/src/pdfmm/base/PdfFileSpec.cpp
@@ -70,39 +70,16 @@ void PdfFileSpec::Init(const string_view& filename, const char* data, size_t siz
 
 PdfString PdfFileSpec::CreateFileSpecification(const string_view& filename) const
 {
-    // FIX-ME: The following is not Unicode compliant
-
-    outstringstream str;
-    char buff[5];
-
     // Construct a platform independent file specifier
 
-    for (size_t i = 0; i < filename.size(); i++)
+    string ret(filename);
+    for (size_t i = 0; i < ret.size(); i++)
     {
-        char ch = filename[i];
-        if (ch == ':' || ch == '\\')
-            ch = '/';
-        if ((ch >= 'a' && ch <= 'z') ||
-            (ch >= 'A' && ch <= 'Z') ||
-            (ch >= '0' && ch <= '9') ||
-            ch == '_')
-        {
-            str.put(ch & 0xFF);
-        }
-        else if (ch == '/')
-        {
-            str.put('\\');
-            str.put('\\');
-            str.put('/');
-        }
-        else
-        {
-            utls::FormatTo(buff, 5, "{:02X}", ch & 0xFF);
-            str << buff;
-        }
+        if (ret[i] == ':' || ret[i] == '\\')
+            ret[i] = '/';
     }
 
-    return PdfString(str.str());
+    return PdfString(ret);
 }
 
 void PdfFileSpec::EmbeddFile(PdfObject& obj, const string_view& filename) const
-- 
2.43.0


From f23edf52f1e0db083cc141b87e4ab7f5c16e21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:11 +0000
Subject: [PATCH 155/223] fix: children of fields can't be enumerated

---
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 4 ++++
 src/pdfmm/base/PdfFieldChildrenCollection.h   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index d836d8a..1a810a2 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -102,21 +102,25 @@ bool PdfFieldChildrenCollectionBase::HasKidsArray() const
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::begin()
 {
+    initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::end()
 {
+    initFields();
     return m_Fields.end();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::begin() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::end() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.end();
 }
 
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.h b/src/pdfmm/base/PdfFieldChildrenCollection.h
index 4057501..8e14f60 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.h
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
         private:
             TListIterator m_iterator;
-- 
2.43.0


From 56034989f9c407a6766062364279049c30d19641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 156/223] fix: fields that can't be created leave an annotation
 on the page

---
 src/pdfmm/base/PdfPage.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 4027bf5..75704d7 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -218,13 +218,31 @@ void PdfPage::MoveAt(unsigned index)
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, fieldType);
+    try
+    {
+        return PdfField::Create(name, annotation, fieldType);
+    }
+    catch (...)
+    {
+        // Don't leave on the page an annotation without a field
+        GetAnnotations().RemoveAnnot(annotation.GetObject().GetIndirectReference());
+        throw;
+    }
 }
 
 PdfField& PdfPage::createField(const string_view& name, const type_info& typeInfo, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, typeInfo);
+    try
+    {
+        return PdfField::Create(name, annotation, typeInfo);
+    }
+    catch (...)
+    {
+        // Don't leave on the page an annotation without a field
+        GetAnnotations().RemoveAnnot(annotation.GetObject().GetIndirectReference());
+        throw;
+    }
 }
 
 bool PdfPage::SetPageWidth(int newWidth)
-- 
2.43.0


From 3e05c011aa7c2506027346f8afb517172fef848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:54 +0000
Subject: [PATCH 157/223] fix: indirect partial names of fields are not found

---
 src/pdfmm/base/PdfField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 017e469..46efbac 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -651,7 +651,7 @@ nullable<const PdfString&> PdfField::GetName() const
 
 nullable<const PdfString&> PdfField::GetNameRaw() const
 {
-    auto obj = GetDictionary().GetKey("T");
+    auto obj = GetDictionary().FindKey("T");
     const PdfString* str;
     if (obj == nullptr || !obj->TryGetString(str))
         return { };
-- 
2.43.0


From 8d7c7b9f4283cf50c76c78373b5504127f54f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 158/223] fix: tokens of different content streams are joined
 when a page is painted

---
 src/pdfmm/base/PdfContents.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e8565a0..5e2d7cf 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -132,12 +132,22 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
 
 void PdfContents::copyTo(OutputStream& stream, const PdfArray& arr) const
 {
+    bool separate = false;
     for (unsigned i = 0; i < arr.GetSize(); i++)
     {
         const PdfObjectStream* objStream;
         auto streamObj = arr.FindAt(i);
         if (streamObj != nullptr && (objStream = streamObj->GetStream()) != nullptr)
+        {
+            // ISO 32000-1:2008: Table 30, /Contents: the division between
+            // streams may occur only at the boundaries between lexical
+            // tokens: separate the streams with a newline
+            if (separate)
+                stream.Write('\n');
+
             objStream->CopyTo(stream);
+            separate = true;
+        }
     }
 }
 
-- 
2.43.0


From 7e9f14382c8865de0430d01d4a70be5ca2a6be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 159/223] fix: painting on forms with content loses or repeats
 it

---
 src/pdfmm/base/PdfPainter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7c6df66..21691a6 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -129,7 +129,7 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream();
+                output = m_stream->GetOutputStream(true);
                 // there is already content here - so let's assume we are appending
                 // as such, we MUST put in a "space" to separate whatever we do.
                 output.Write("\n");
@@ -147,10 +147,10 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream(true);
+                output = m_stream->GetOutputStream();
                 output.Write("q\n");
                 output.Write(buffer);
-                output.Write("Q\n");
+                output.Write("\nQ\n");
             }
         }
 
-- 
2.43.0


From a4cd62ebc877db687c842de9528c0c7d8aebd7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 160/223] fix: marked content at the begin of a painting
 session is lost

---
 src/pdfmm/base/PdfPainter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 21691a6..9b8a515 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1203,11 +1203,13 @@ void PdfPainter::Rectangle(const PdfRect& rect, double roundX, double roundY)
 
 void PdfPainter::BeginMarkedContext(const string_view& tag)
 {
+    checkStream();
     m_tmpStream << '/' << tag << " BMC" << endl;
 }
 
 void PdfPainter::EndMarkedContext()
 {
+    checkStream();
     m_tmpStream << "EMC" << endl;
 }
 
-- 
2.43.0


From d82fdd45a6d074bc3aaf4e27456f55fd855d3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 161/223] fix: expanded tabs are kept in drawn text

---
 src/pdfmm/base/PdfPainter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 9b8a515..6452fc2 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1556,8 +1556,8 @@ string expandTabs(const string_view& str, unsigned tabWidth, unsigned tabCount)
         char32_t ch = (char32_t)utf8::next(it, end);
         if (ch == U'\t')
             ret.append(tabWidth, ' ');
-
-        utf8::append(ch, ret);
+        else
+            utf8::append(ch, ret);
     }
 
     return ret;
-- 
2.43.0


From 9a5f48c989f5211632d6abc9e937611ed9d24e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 162/223] fix: small radii of rounded rectangles are ignored

---
 src/pdfmm/base/PdfPainter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 6452fc2..c5875e8 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -365,7 +365,7 @@ void PdfPainter::Rectangle(double x, double y, double width, double height,
     double roundX, double roundY)
 {
     checkStream();
-    if (static_cast<int>(roundX) || static_cast<int>(roundY))
+    if (roundX != 0 || roundY != 0)
     {
         double w = width, h = height,
             rx = roundX, ry = roundY;
-- 
2.43.0


From 04d0344841fd860f253d5870a4134210a3543f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 163/223] fix: multi line text saves the graphics state and
 clips in text objects

---
 src/pdfmm/base/PdfPainter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index c5875e8..1d26a3a 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -544,10 +544,7 @@ void PdfPainter::DrawMultiLineText(const string_view& str, double x, double y, d
     if (width <= 0.0 || height <= 0.0) // nonsense arguments
         return;
 
-    m_tmpStream << "BT" << endl;
-    writeTextState();
     drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, clip, skipSpaces);
-    m_tmpStream << "ET" << endl;
 }
 
 void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment)
@@ -573,6 +570,11 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
     if (clip)
         this->SetClipRect(x, y, width, height);
 
+    // NOTE: The graphics state can't be saved and the
+    // clipping path can't be set in a text object
+    m_tmpStream << "BT" << endl;
+    writeTextState();
+
     auto expanded = this->expandTabs(str);
 
     vector<string> lines = getMultiLineTextAsLines(expanded, width, skipSpaces);
@@ -602,6 +604,7 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
         y -= font.GetLineSpacing(m_TextState);
         it++;
     }
+    m_tmpStream << "ET" << endl;
     this->Restore();
 }
 
-- 
2.43.0


From 10379c26a3d344a62d1c8b1eda2af78786bff9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 164/223] fix: the current point of paths is not tracked

---
 src/pdfmm/base/PdfPainter.cpp | 41 ++++++++++++++---------------------
 src/pdfmm/base/PdfPainter.h   |  1 +
 2 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 1d26a3a..78cae0f 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -829,6 +829,7 @@ void PdfPainter::LineTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " l" << endl;
+    setCurrentPoint(x, y, x, y);
 }
 
 void PdfPainter::MoveTo(double x, double y)
@@ -837,6 +838,7 @@ void PdfPainter::MoveTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " m" << endl;
+    setCurrentPoint(x, y, x, y);
 }
 
 void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, double x3, double y3)
@@ -849,6 +851,17 @@ void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, doubl
         << x3 << " "
         << y3
         << " c" << endl;
+    setCurrentPoint(x3, y3, x2, y2);
+}
+
+void PdfPainter::setCurrentPoint(double x, double y, double controlX, double controlY)
+{
+    m_lpx = m_lpx2 = m_lpx3 = x;
+    m_lpy = m_lpy2 = m_lpy3 = y;
+    m_lcx = x;
+    m_lcy = y;
+    m_lrx = controlX;
+    m_lry = controlY;
 }
 
 void PdfPainter::HorizontalLineTo(double x)
@@ -872,17 +885,6 @@ void PdfPainter::SmoothCurveTo(double x2, double y2, double x3, double y3)
     px = 2 * m_lcx - m_lrx;
     py = 2 * m_lcy - m_lry;
 
-    m_lpx = px;
-    m_lpy = py;
-    m_lpx2 = px2;
-    m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
-
     CubicBezierTo(px, py, px2, py2, px3, py3);
 }
 
@@ -899,18 +901,9 @@ void PdfPainter::QuadCurveTo(double x1, double y1, double x3, double y3)
     px2 = (px3 + 2 * px) * (1.0 / 3.0);
     py2 = (py3 + 2 * py) * (1.0 / 3.0);
 
-    m_lpx = px;
-    m_lpy = py;
-    m_lpx2 = px2;
-    m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
-
     CubicBezierTo(px, py, px2, py2, px3, py3);
+    // The next smooth curve reflects the quadratic control point
+    setCurrentPoint(x3, y3, x1, y1);
 }
 
 void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
@@ -928,10 +921,8 @@ void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
     px2 = (px3 + 2 * xc) * (1.0 / 3.0);
     py2 = (py3 + 2 * yc) * (1.0 / 3.0);
 
-    m_lpx = px; m_lpy = py; m_lpx2 = px2; m_lpy2 = py2; m_lpx3 = px3; m_lpy3 = py3;
-    m_lcx = px3;    m_lcy = py3;    m_lrx = xc;    m_lry = yc;    // thanks Raph!
-
     CubicBezierTo(px, py, px2, py2, px3, py3);
+    setCurrentPoint(x3, y3, xc, yc);    // thanks Raph!
 }
 
 void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 12a969c..0dfb249 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -674,6 +674,7 @@ private:
 
 private:
     void writeTextState();
+    void setCurrentPoint(double x, double y, double controlX, double controlY);
     void setFont(const PdfFont* font, double fontSize);
     void setFontScale(double value);
     void setCharSpacing(double value);
-- 
2.43.0


From 42ddc2580491221aec93853bfd1dbd216ebf2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 165/223] fix: wrong initial line width and cap of the graphics
 state

---
 src/pdfmm/base/PdfGraphicsState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfGraphicsState.cpp b/src/pdfmm/base/PdfGraphicsState.cpp
index 4bbb717..8c3d85b 100644
--- a/src/pdfmm/base/PdfGraphicsState.cpp
+++ b/src/pdfmm/base/PdfGraphicsState.cpp
@@ -10,9 +10,9 @@ using namespace std;
 using namespace mm;
 
 PdfGraphicsState::PdfGraphicsState() :
-    LineWidth(0),
+    LineWidth(1),
     MiterLimit(10),
-    LineCapStyle(PdfLineCapStyle::Square),
+    LineCapStyle(PdfLineCapStyle::Butt),
     LineJoinStyle(PdfLineJoinStyle::Miter)
 {
 }
-- 
2.43.0


From c4d8b89e7072e73be989dc4844d825e1f8d64121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 166/223] fix: cached graphics and text state does not follow
 Save, Restore and new canvases

---
 src/pdfmm/base/PdfPainter.cpp | 29 +++++++++++++++++++++++++----
 src/pdfmm/base/PdfPainter.h   |  3 +++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 78cae0f..aaeac67 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -168,6 +168,12 @@ void PdfPainter::finishDrawing()
 
     // Reset temporary stream
     m_tmpStream.Clear();
+
+    // The next content starts with the initial state
+    m_GraphicsState = PdfGraphicsState();
+    m_WrittenTextState = PdfTextState();
+    m_SavedStates.clear();
+    m_isTextOpen = false;
 }
 
 void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
@@ -1161,12 +1167,19 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
+    m_SavedStates.push_back({ m_GraphicsState, m_WrittenTextState });
 }
 
 void PdfPainter::Restore()
 {
     checkStream();
     m_tmpStream << "Q" << endl;
+    if (m_SavedStates.size() != 0)
+    {
+        m_GraphicsState = m_SavedStates.back().first;
+        m_WrittenTextState = m_SavedStates.back().second;
+        m_SavedStates.pop_back();
+    }
 }
 
 
@@ -1411,18 +1424,22 @@ void PdfPainter::SetStrokeColor(const PdfColor& color)
 void PdfPainter::writeTextState()
 {
     if (m_TextState.Font != nullptr)
+    {
+        // The font may have been set when painting on another canvas
+        this->addToPageResources("Font", m_TextState.Font->GetIdentifier(), m_TextState.Font->GetObject());
         setFont(m_TextState.Font, m_TextState.FontSize);
+    }
 
-    if (m_TextState.FontScale != 1)
+    if (m_TextState.FontScale != m_WrittenTextState.FontScale)
         setFontScale(m_TextState.FontScale);
 
-    if (m_TextState.CharSpacing != 0)
+    if (m_TextState.CharSpacing != m_WrittenTextState.CharSpacing)
         setCharSpacing(m_TextState.CharSpacing);
 
-    if (m_TextState.WordSpacing != 0)
+    if (m_TextState.WordSpacing != m_WrittenTextState.WordSpacing)
         setWordSpacing(m_TextState.WordSpacing);
 
-    if (m_TextState.RenderingMode != PdfTextRenderingMode::Fill)
+    if (m_TextState.RenderingMode != m_WrittenTextState.RenderingMode)
         setTextRenderingMode(m_TextState.RenderingMode);
 }
 
@@ -1453,6 +1470,7 @@ void PdfPainter::SetFontScale(double value)
 void PdfPainter::setFontScale(double value)
 {
     checkStream();
+    m_WrittenTextState.FontScale = value;
     m_tmpStream << value * 100 << " Tz" << endl;
 }
 
@@ -1465,6 +1483,7 @@ void PdfPainter::SetCharSpacing(double value)
 void PdfPainter::setCharSpacing(double value)
 {
     checkStream();
+    m_WrittenTextState.CharSpacing = value;
     m_tmpStream << value << " Tc" << endl;
 }
 
@@ -1477,6 +1496,7 @@ void PdfPainter::SetWordSpacing(double value)
 void PdfPainter::setWordSpacing(double value)
 {
     checkStream();
+    m_WrittenTextState.WordSpacing = value;
     m_tmpStream << value << " Tw" << endl;
 }
 
@@ -1489,6 +1509,7 @@ void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
 void PdfPainter::setTextRenderingMode(PdfTextRenderingMode value)
 {
     checkStream();
+    m_WrittenTextState.RenderingMode = value;
     m_tmpStream << (int)value << " Tr" << endl;
 }
 
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 0dfb249..6618ae7 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -759,6 +759,9 @@ private:
 
     PdfGraphicsState m_GraphicsState;
     PdfTextState m_TextState;
+    // The text state as written in the current content
+    PdfTextState m_WrittenTextState;
+    std::vector<std::pair<PdfGraphicsState, PdfTextState>> m_SavedStates;
     PdfGraphicsStateWrapper m_PainterGraphicsState;
     PdfTextStateWrapper m_PainterTextState;
 
-- 
2.43.0


From db534909ffbbb143214e3b337713ea5a3adf46e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 167/223] fix: text objects are begun without the current text
 state

---
 src/pdfmm/base/PdfPainter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index aaeac67..8aa4bd9 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -499,6 +499,7 @@ void PdfPainter::BeginText(double x, double y)
     checkTextModeClosed();
 
     m_tmpStream << "BT" << endl;
+    writeTextState();
     m_tmpStream << x << " " << y << " Td" << endl;
     m_isTextOpen = true;
 }
-- 
2.43.0


From 856e4abe576dcb808c8b3c00ec36c925ec54390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 168/223] fix: wrong tint transforms and Lab alternates of
 separation colors

---
 src/pdfmm/base/PdfColor.cpp | 99 ++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index b4563d6..ba17838 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -859,6 +859,32 @@ PdfColor PdfColor::FromArray(const PdfArray& arr)
     return ret;
 }
 
+static PdfArray buildLabColorSpace()
+{
+    // Build color-spaces for CIE-lab
+    PdfDictionary labDict;
+
+    // D65-whitepoint
+    PdfArray wpArr;
+    wpArr.Add(0.9505);
+    wpArr.Add(1.0000);
+    wpArr.Add(1.0890);
+    labDict.AddKey("WhitePoint", wpArr);
+
+    // Range for A,B, L is implicit 0..100
+    PdfArray rangeArr;
+    rangeArr.Add(static_cast<int64_t>(-128));
+    rangeArr.Add(static_cast<int64_t>(127));
+    rangeArr.Add(static_cast<int64_t>(-128));
+    rangeArr.Add(static_cast<int64_t>(127));
+    labDict.AddKey("Range", rangeArr);
+
+    PdfArray labArr;
+    labArr.Add(PdfName("Lab"));
+    labArr.Add(labDict);
+    return labArr;
+}
+
 PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
 {
     switch (m_ColorSpace)
@@ -870,17 +896,6 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
 
             csTintFunc.GetDictionary().AddKey("BitsPerSample", static_cast<int64_t>(8));
 
-            PdfArray decode;
-            decode.Add(static_cast<int64_t>(0));
-            decode.Add(static_cast<int64_t>(1));
-            decode.Add(static_cast<int64_t>(0));
-            decode.Add(static_cast<int64_t>(1));
-            decode.Add(static_cast<int64_t>(0));
-            decode.Add(static_cast<int64_t>(1));
-            decode.Add(static_cast<int64_t>(0));
-            decode.Add(static_cast<int64_t>(1));
-            csTintFunc.GetDictionary().AddKey("Decode", decode);
-
             PdfArray domain;
             domain.Add(static_cast<int64_t>(0));
             domain.Add(static_cast<int64_t>(1));
@@ -900,9 +915,10 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
             {
                 case PdfColorSpace::DeviceGray:
                 {
+                    // NOTE: The tint 0 is the lightest color
                     char data[1 * 2];
-                    data[0] = 0;
-                    data[1] = static_cast<char> (m_Color.gray);
+                    data[0] = static_cast<char> (255);
+                    data[1] = static_cast<char> (m_Color.gray * 255);
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
@@ -927,10 +943,11 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
 
                 case PdfColorSpace::DeviceRGB:
                 {
+                    // NOTE: The tint 0 is the lightest color
                     char data[3 * 2];
-                    data[0] = 0;
-                    data[1] = 0;
-                    data[2] = 0;
+                    data[0] = static_cast<char> (255);
+                    data[1] = static_cast<char> (255);
+                    data[2] = static_cast<char> (255);
                     data[3] = static_cast<char> (m_Color.rgb[0] * 255);
                     data[4] = static_cast<char> (m_Color.rgb[1] * 255);
                     data[5] = static_cast<char> (m_Color.rgb[2] * 255);
@@ -1001,22 +1018,24 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
 
                 case PdfColorSpace::Lab:
                 {
+                    // NOTE: The tint 0 is the lightest color
                     char data[3 * 2];
-                    data[0] = 0;
-                    data[1] = 0;
-                    data[2] = 0;
-                    data[3] = static_cast<char> (m_Color.lab[0] * 255);
-                    data[4] = static_cast<char> (m_Color.lab[1] * 255);
-                    data[5] = static_cast<char> (m_Color.lab[2] * 255);
+                    data[0] = static_cast<char> (255);
+                    data[1] = static_cast<char> (128);
+                    data[2] = static_cast<char> (128);
+                    data[3] = static_cast<char> (m_Color.lab[0] / 100 * 255);
+                    data[4] = static_cast<char> (m_Color.lab[1] + 128);
+                    data[5] = static_cast<char> (m_Color.lab[2] + 128);
 
                     PdfArray range;
                     range.Add(static_cast<int64_t>(0));
-                    range.Add(static_cast<int64_t>(1));
-                    range.Add(static_cast<int64_t>(0));
-                    range.Add(static_cast<int64_t>(1));
-                    range.Add(static_cast<int64_t>(0));
-                    range.Add(static_cast<int64_t>(1));
+                    range.Add(static_cast<int64_t>(100));
+                    range.Add(static_cast<int64_t>(-128));
+                    range.Add(static_cast<int64_t>(127));
+                    range.Add(static_cast<int64_t>(-128));
+                    range.Add(static_cast<int64_t>(127));
                     csTintFunc.GetDictionary().AddKey("Range", range);
+                    csTintFunc.GetDictionary().AddKey("Decode", range);
 
                     PdfArray size;
                     size.Add(static_cast<int64_t>(2));
@@ -1027,7 +1046,7 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
                     PdfArray csArr;
                     csArr.Add(PdfName("Separation"));
                     csArr.Add(PdfName(m_SeparationName));
-                    csArr.Add(PdfName("Lab"));
+                    csArr.Add(buildLabColorSpace());
                     csArr.Add(csTintFunc.GetIndirectReference());
 
                     return &document.GetObjects().CreateObject(std::move(csArr));
@@ -1052,29 +1071,7 @@ PdfObject* PdfColor::BuildColorSpace(PdfDocument& document) const
 
         case PdfColorSpace::Lab:
         {
-            // Build color-spaces for CIE-lab
-            PdfDictionary labDict;
-
-            // D65-whitepoint
-            PdfArray wpArr;
-            wpArr.Add(0.9505);
-            wpArr.Add(1.0000);
-            wpArr.Add(1.0890);
-            labDict.AddKey("WhitePoint", wpArr);
-
-            // Range for A,B, L is implicit 0..100
-            PdfArray rangeArr;
-            rangeArr.Add(static_cast<int64_t>(-128));
-            rangeArr.Add(static_cast<int64_t>(127));
-            rangeArr.Add(static_cast<int64_t>(-128));
-            rangeArr.Add(static_cast<int64_t>(127));
-            labDict.AddKey("Range", rangeArr);
-
-            PdfArray labArr;
-            labArr.Add(PdfName("Lab"));
-            labArr.Add(labDict);
-
-            return &document.GetObjects().CreateObject(std::move(labArr));
+            return &document.GetObjects().CreateObject(buildLabColorSpace());
         }
         break;
 
-- 
2.43.0


From b631946604539ef5e78597d2da499e4851075e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 169/223] fix: Lab color spaces are added again for every use

---
 src/pdfmm/base/PdfResources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfResources.cpp b/src/pdfmm/base/PdfResources.cpp
index ba6051f..693dce5 100644
--- a/src/pdfmm/base/PdfResources.cpp
+++ b/src/pdfmm/base/PdfResources.cpp
@@ -102,7 +102,7 @@ void PdfResources::AddColorResource(const PdfColor& color)
         case PdfColorSpace::Lab:
         {
             if (!GetDictionary().HasKey("ColorSpace")
-                || !GetDictionary().MustFindKey("ColorSpace").GetDictionary().HasKey("ColorSpaceLab"))
+                || !GetDictionary().MustFindKey("ColorSpace").GetDictionary().HasKey("ColorSpaceCieLab"))
             {
                 // Build color-spaces for CIE-lab
                 auto csp = color.BuildColorSpace(GetDocument());
-- 
2.43.0


From 09f2a01f95783ad4f33551381cd7d32b24efe3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 170/223] fix: gray values and names that are not null
 terminated are read wrongly from strings

---
 src/pdfmm/base/PdfColor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index ba17838..bc34cc4 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -687,7 +687,7 @@ PdfColor PdfColor::FromString(const string_view& name)
     if (isdigit(name[0]) || name[0] == '.')
     {
         double grayVal = 0.0;
-        if (std::from_chars(name.data() + 1, name.data() + name.size(), grayVal, chars_format::fixed).ec != std::errc())
+        if (std::from_chars(name.data(), name.data() + name.size(), grayVal, chars_format::fixed).ec != std::errc())
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
 
         return PdfColor(grayVal);
@@ -780,7 +780,7 @@ PdfColor PdfColor::FromString(const string_view& name)
         pair<const PdfNamedColor*, const PdfNamedColor*> iterators =
             std::equal_range(&(s_NamedColors[0]),
                 s_NamedColors + s_NamedColorsCount,
-                PdfNamedColor(name.data(), PdfColor()), NamedColorComparatorPredicate());
+                PdfNamedColor(name, PdfColor()), NamedColorComparatorPredicate());
 
         if (iterators.first != iterators.second)
             return iterators.first->GetColor();
-- 
2.43.0


From 7e60a96338d648ec8f6f19f55a7c006c1dc19b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 171/223] fix: transparent colors are not read from empty
 arrays

---
 src/pdfmm/base/PdfColor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index bc34cc4..f578d3e 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -812,6 +812,7 @@ bool PdfColor::TryCreateFromArray(const PdfArray& arr, PdfColor& color)
     if (arr.GetSize() == 0) // Transparent
     {
         color = CreateTransparent();
+        return true;
     }
     else if (arr.GetSize() == 1) // grayscale
     {
-- 
2.43.0


From 77594cc2decf412976b267041d992fa86dbe7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 172/223] fix: reading contents raises without warnings

---
 src/pdfmm/base/PdfContentsReader.cpp | 7 ++++---
 src/pdfmm/base/PdfContentsReader.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 7e7b2c0..77ca11d 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -87,7 +87,7 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
 
     HandleContent:
         afterReadClear(content);
-        handleWarnings();
+        handleWarnings(content);
         return true;
 
     PopDevice:
@@ -423,9 +423,10 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
     return false;
 }
 
-void PdfContentsReader::handleWarnings()
+void PdfContentsReader::handleWarnings(const PdfContent& content)
 {
-    if ((m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
+    if (content.Warnings != PdfContentWarnings::None
+        && (m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidContentStream, "Unsupported PostScript content");
 }
 
diff --git a/src/pdfmm/base/PdfContentsReader.h b/src/pdfmm/base/PdfContentsReader.h
index e549c37..fdd55ad 100644
--- a/src/pdfmm/base/PdfContentsReader.h
+++ b/src/pdfmm/base/PdfContentsReader.h
@@ -105,7 +105,7 @@ private:
 
     void tryFollowXObject(PdfContent& content);
 
-    void handleWarnings();
+    void handleWarnings(const PdfContent& content);
 
     bool isCalledRecursively(const PdfObject* xobj);
 
-- 
2.43.0


From 6743cd2f0837cae30f36afcba26675b4fa793e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 173/223] fix: inline images at the end of the contents are
 lost

---
 src/pdfmm/base/PdfContentsReader.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 77ca11d..9f5c88b 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -53,7 +53,10 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
             if (m_args.InlineImageHandler == nullptr)
             {
                 if (!tryReadInlineImgData(content.InlineImageData))
+                {
+                    m_readingInlineImgData = false;
                     goto PopDevice;
+                }
 
                 content.Type = PdfContentType::ImageData;
                 m_readingInlineImgData = false;
@@ -420,6 +423,13 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
         readCount++;
     }
 
+    if (status == ReadEIStatus::ReadWhiteSpace)
+    {
+        // The EI operator is the last of the contents
+        data = bufferview(m_buffer->data(), readCount - 2);
+        return true;
+    }
+
     return false;
 }
 
-- 
2.43.0


From ed6e04ee36a1dc72dd7a477c5d84f8ad418d52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:50 +0000
Subject: [PATCH 174/223] fix: XObjects without the optional type are not
 recognized

---
 src/pdfmm/base/PdfXObject.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfXObject.cpp b/src/pdfmm/base/PdfXObject.cpp
index 120fa1d..a10869d 100644
--- a/src/pdfmm/base/PdfXObject.cpp
+++ b/src/pdfmm/base/PdfXObject.cpp
@@ -68,9 +68,8 @@ bool PdfXObject::tryCreateFromObject(const PdfObject& obj, PdfXObjectType xobjTy
     const PdfObject* typeObj;
     const PdfName* name;
     if (!obj.TryGetDictionary(dict)
-        || (typeObj = dict->GetKey(PdfName::KeyType)) == nullptr
-        || !typeObj->TryGetName(name)
-        || name->GetString() != "XObject")
+        || ((typeObj = dict->FindKey(PdfName::KeyType)) != nullptr
+            && (!typeObj->TryGetName(name) || name->GetString() != "XObject")))
     {
         xobj = nullptr;
         return false;
-- 
2.43.0


From 45d62cd5b7999bc638f8901013f782889bc3705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:29 +0000
Subject: [PATCH 175/223] fix: wrong second control point of quadratic curves

---
 src/pdfmm/base/PdfPainter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 8aa4bd9..629d5f4 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -905,8 +905,8 @@ void PdfPainter::QuadCurveTo(double x1, double y1, double x3, double y3)
     // http://www.icce.rug.nl/erikjan/bluefuzz/beziers/beziers/beziers.html
     px = (m_lcx + 2 * px) * (1.0 / 3.0);
     py = (m_lcy + 2 * py) * (1.0 / 3.0);
-    px2 = (px3 + 2 * px) * (1.0 / 3.0);
-    py2 = (py3 + 2 * py) * (1.0 / 3.0);
+    px2 = (px3 + 2 * x1) * (1.0 / 3.0);
+    py2 = (py3 + 2 * y1) * (1.0 / 3.0);
 
     CubicBezierTo(px, py, px2, py2, px3, py3);
     // The next smooth curve reflects the quadratic control point
-- 
2.43.0


From fa0c9dd15de66f7d058fbafce9cb212e4333281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:09 +0000
Subject: [PATCH 176/223] fix: wrong points of rotated elliptic arcs

---
 src/pdfmm/base/PdfPainter.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 629d5f4..cfec15f 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1016,13 +1016,9 @@ void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
         ny3 = yc + sin(nth1);
         nx2 = nx3 + t * sin(nth1);
         ny2 = ny3 - t * cos(nth1);
-        nx1 = na00 * nx1 + na01 * ny1;
-        ny1 = na10 * nx1 + na11 * ny1;
-        nx2 = na00 * nx2 + na01 * ny2;
-        ny2 = na10 * nx2 + na11 * ny2;
-        nx3 = na00 * nx3 + na01 * ny3;
-        ny3 = na10 * nx3 + na11 * ny3;
-        CubicBezierTo(nx1, ny1, nx2, ny2, nx3, ny3);
+        CubicBezierTo(na00 * nx1 + na01 * ny1, na10 * nx1 + na11 * ny1,
+            na00 * nx2 + na01 * ny2, na10 * nx2 + na11 * ny2,
+            na00 * nx3 + na01 * ny3, na10 * nx3 + na11 * ny3);
     }
 
     m_lpx = m_lpx2 = m_lpx3 = px;
-- 
2.43.0


From f0d2c0d18e87f79841e8d6342e4f14a0254b4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:58 +0000
Subject: [PATCH 177/223] fix: text rendering modes are written as the next
 mode

---
 src/pdfmm/base/PdfPainter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index cfec15f..3544c5d 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1507,7 +1507,8 @@ void PdfPainter::setTextRenderingMode(PdfTextRenderingMode value)
 {
     checkStream();
     m_WrittenTextState.RenderingMode = value;
-    m_tmpStream << (int)value << " Tr" << endl;
+    // NOTE: PdfTextRenderingMode::Fill is the mode 0
+    m_tmpStream << (int)value - (int)PdfTextRenderingMode::Fill << " Tr" << endl;
 }
 
 string PdfPainter::expandTabs(const string_view& str) const
-- 
2.43.0


From 35ceebd14b072fbc64557c9c8a0c79b11dc528c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:59 +0000
Subject: [PATCH 178/223] fix: colors equal to the one before a pattern are not
 set

---
 src/pdfmm/base/PdfPainter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 3544c5d..90df323 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -181,6 +181,8 @@ void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    // The color is replaced: don't skip setting it again
+    m_GraphicsState.StrokeColor = PdfColor::CreateTransparent();
 }
 
 void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
@@ -188,6 +190,8 @@ void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    // The color is replaced: don't skip setting it again
+    m_GraphicsState.FillColor = PdfColor::CreateTransparent();
 }
 
 void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
@@ -195,12 +199,16 @@ void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    // The color is replaced: don't skip setting it again
+    m_GraphicsState.StrokeColor = PdfColor::CreateTransparent();
 }
 
 void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
 {
     checkStream();
     m_tmpStream << "/Pattern CS /" << patternName << " SCN" << endl;
+    // The color is replaced: don't skip setting it again
+    m_GraphicsState.StrokeColor = PdfColor::CreateTransparent();
 }
 
 void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
@@ -208,12 +216,16 @@ void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    // The color is replaced: don't skip setting it again
+    m_GraphicsState.FillColor = PdfColor::CreateTransparent();
 }
 
 void PdfPainter::SetTilingPattern(const string_view& patternName)
 {
     checkStream();
     m_tmpStream << "/Pattern cs /" << patternName << " scn" << endl;
+    // The color is replaced: don't skip setting it again
+    m_GraphicsState.FillColor = PdfColor::CreateTransparent();
 }
 
 void PdfPainter::SetStrokeStyle(PdfStrokeStyle strokeStyle, const string_view& custom, bool inverted, double scale, bool subtractJoinCap)
-- 
2.43.0


From 23b2b8d5a3f4ff042b5809df9cbd4c680e206135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:50 +0000
Subject: [PATCH 179/223] fix: dictionaries of inline images hold the entries
 of the image before

---
 src/pdfmm/base/PdfContentsReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 9f5c88b..2ed0359 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -280,6 +280,7 @@ bool PdfContentsReader::tryHandleOperator(PdfContent& content)
 // Returns false in case of EOF
 bool PdfContentsReader::tryReadInlineImgDict(PdfContent& content)
 {
+    content.InlineImageDictionary.Clear();
     while (true)
     {
         if (!m_tokenizer.TryReadNext(*m_inputs.back().Device, m_temp.PsType, m_temp.Keyword, m_temp.Variant))
-- 
2.43.0


From 5d4cb9e94e529994ebb056a1326c51ae5422a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:24 +0000
Subject: [PATCH 180/223] fix: PNG images with a palette get an invalid color
 space

---
 src/pdfmm/base/PdfImage.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 869b61e..98e6e64 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -382,9 +382,6 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
     }
     else
     {
-        PdfArray arr;
-        arr.Add(PdfName(mm::ColorSpaceToNameRaw(info.ColorSpace)));
-        arr.insert(arr.begin(), info.ColorSpaceArray.begin(), info.ColorSpaceArray.end());
         dict.AddKey("ColorSpace", info.ColorSpaceArray);
     }
 
@@ -1289,6 +1286,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         idxObj.GetOrCreateStream().SetData(data);
 
         PdfArray array;
+        array.Add(PdfName("Indexed"));
         array.Add(PdfName("DeviceRGB"));
         array.Add(static_cast<int64_t>(colorCount - 1));
         array.Add(idxObj.GetIndirectReference());
-- 
2.43.0


From 8d58fbac3eac9042fc18d61ea2741b10cd603808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:24 +0000
Subject: [PATCH 181/223] fix: soft masks of PNG palettes with less than 8 bits
 are wrong

---
 src/pdfmm/base/PdfImage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 98e6e64..1373afa 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1210,13 +1210,13 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
                             color = row[c];
                             break;
                         case 4:
-                            color = c % 2 ? row[c / 2] >> 4 : row[c / 2] & 0xF;
+                            color = (row[c / 2] >> (4 - c % 2 * 4)) & 0xF;
                             break;
                         case 2:
-                            color = (row[c / 4] >> c % 4 * 2) & 3;
+                            color = (row[c / 4] >> (6 - c % 4 * 2)) & 3;
                             break;
                         case 1:
-                            color = (row[c / 4] >> c % 8) & 1;
+                            color = (row[c / 8] >> (7 - c % 8)) & 1;
                             break;
                         default:
                             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
@@ -1256,7 +1256,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         PdfImageInfo smaksInfo;
         smaksInfo.Width = (unsigned)width;
         smaksInfo.Height = (unsigned)height;
-        smaksInfo.BitsPerComponent = (unsigned char)depth;
+        smaksInfo.BitsPerComponent = 8; // The soft mask has always a byte for each pixel
         smaksInfo.ColorSpace = PdfColorSpace::DeviceGray;
 
         auto smakeImage = image.GetDocument().CreateImage();
-- 
2.43.0


From 395bc559bcad2b3e5c33283399b883704a4364a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:24 +0000
Subject: [PATCH 182/223] fix: data of PNG images with alpha is followed by
 leftovers

---
 src/pdfmm/base/PdfImage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 1373afa..83e3485 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1252,6 +1252,9 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
             }
             len = width * height;
         }
+        // The color samples may have been packed
+        buffer.resize(len);
+
         SpanStreamDevice smaskinput(smask);
         PdfImageInfo smaksInfo;
         smaksInfo.Width = (unsigned)width;
-- 
2.43.0


From 33ab9521991b9f3c276cd9f6c64e80dfae8b10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:24 +0000
Subject: [PATCH 183/223] fix: truncated PNG data is read as uninitialized
 memory

---
 src/pdfmm/base/PdfImage.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 83e3485..1949bde 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1063,18 +1063,14 @@ struct PngData
     PngData(const unsigned char* data, png_size_t size) :
         m_data(data), m_pos(0), m_size(size) {}
 
-    void read(png_bytep data, png_size_t length)
+    bool read(png_bytep data, png_size_t length)
     {
         if (length > m_size - m_pos)
-        {
-            memcpy(data, &m_data[m_pos], m_size - m_pos);
-            m_pos = m_size;
-        }
-        else
-        {
-            memcpy(data, &m_data[m_pos], length);
-            m_pos += length;
-        }
+            return false;
+
+        memcpy(data, m_data + m_pos, length);
+        m_pos += length;
+        return true;
     }
 
 private:
@@ -1090,8 +1086,7 @@ void PdfImage::loadFromPngData(const unsigned char* data, size_t len)
 
     PngData pngData(data, len);
     png_byte header[8];
-    pngData.read(header, 8);
-    if (png_sig_cmp(header, 0, 8))
+    if (!pngData.read(header, 8) || png_sig_cmp(header, 0, 8))
     {
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The file could not be recognized as a PNG file");
     }
@@ -1314,7 +1309,8 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
 void pngReadData(png_structp pngPtr, png_bytep data, png_size_t length)
 {
     PngData* a = (PngData*)png_get_io_ptr(pngPtr);
-    a->read(data, length);
+    if (!a->read(data, length))
+        png_error(pngPtr, "Read Error");
 }
 
 #endif // PDFMM_HAVE_PNG_LIB
-- 
2.43.0


From f13c48d9b5fa98d852789b51f922c0521830a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 184/223] fix: handles of unsupported TIFF images are closed
 twice or never

---
 src/pdfmm/base/PdfImage.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 1949bde..1536b91 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -706,19 +706,16 @@ void PdfImage::loadFromTiffHandle(void* handle)
     // TODO: implement special cases
     if (TIFFIsTiled(hInTiffHandle))
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
     if (planarConfig != PLANARCONFIG_CONTIG && colorChannels != 1)
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
     if (orientation != ORIENTATION_TOPLEFT)
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
@@ -743,7 +740,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             break;
@@ -763,7 +759,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             break;
@@ -772,7 +767,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
         {
             if (bitsPixel != 24)
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             info.ColorSpace = PdfColorSpace::DeviceRGB;
@@ -782,7 +776,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
         {
             if (bitsPixel != 32)
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             info.ColorSpace = PdfColorSpace::DeviceCMYK;
@@ -827,7 +820,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
 
         default:
         {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             break;
         }
@@ -842,7 +834,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             &buffer[row * scanlineSize],
             row) == (-1))
         {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
         }
     }
@@ -1004,7 +995,17 @@ void PdfImage::loadFromTiffData(const unsigned char* data, size_t len)
     if (hInHandle == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
-    loadFromTiffHandle(hInHandle);
+    try
+    {
+        loadFromTiffHandle(hInHandle);
+    }
+    catch (...)
+    {
+        TIFFClose(hInHandle);
+        throw;
+    }
+
+    TIFFClose(hInHandle);
 }
 
 #endif // PDFMM_HAVE_TIFF_LIB
-- 
2.43.0


From 4583d4f02a295601cd226188ad818f592bdb1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 185/223] fix: TIFF images with missing fields are loaded with
 uninitialized values

---
 src/pdfmm/base/PdfImage.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 1536b91..4cd1495 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -683,12 +683,18 @@ void PdfImage::loadFromTiffHandle(void* handle)
     uint16 planarConfig, photoMetric, orientation;
     int32 resolutionUnit;
 
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width);
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height);
+    if (!TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width) || width <= 0
+        || !TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height) || height <= 0)
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Missing or invalid TIFF image size");
+    }
+
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_PLANARCONFIG, &planarConfig);
-    TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_PHOTOMETRIC, &photoMetric);
+    if (!TIFFGetField(hInTiffHandle, TIFFTAG_PHOTOMETRIC, &photoMetric))
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Missing TIFF photometric interpretation");
+
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_EXTRASAMPLES, &extraSamples, &sampleInfo);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_ORIENTATION, &orientation);
 
@@ -783,6 +789,9 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
         case PHOTOMETRIC_PALETTE:
         {
+            if (samplesPerPixel != 1 || bitsPerSample > 8)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
             unsigned numColors = (1 << bitsPixel);
 
             PdfArray decode;
@@ -793,7 +802,8 @@ void PdfImage::loadFromTiffHandle(void* handle)
             uint16* rgbRed;
             uint16* rgbGreen;
             uint16* rgbBlue;
-            TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue);
+            if (!TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue))
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Missing TIFF color map");
 
             charbuff data(numColors * 3);
 
@@ -826,10 +836,11 @@ void PdfImage::loadFromTiffHandle(void* handle)
     }
 
     size_t scanlineSize = TIFFScanlineSize(hInTiffHandle);
-    size_t bufferSize = scanlineSize * height;
-    charbuff buffer(bufferSize);
+    charbuff buffer;
     for (row = 0; row < height; row++)
     {
+        // Don't trust the size until the rows are actually read
+        buffer.resize((row + 1) * scanlineSize);
         if (TIFFReadScanline(hInTiffHandle,
             &buffer[row * scanlineSize],
             row) == (-1))
-- 
2.43.0


From bc649f9186fb135c00a6a457c74e3ba16f18ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 186/223] fix: black and white TIFF images can not be loaded

---
 src/pdfmm/base/PdfImage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 4cd1495..8c4453f 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -739,6 +739,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
                 info.Decode = std::move(decode);
+                info.ColorSpace = PdfColorSpace::DeviceGray;
             }
             else if (bitsPixel == 8 || bitsPixel == 16)
             {
@@ -758,6 +759,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
                 decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
                 info.Decode = std::move(decode);
+                info.ColorSpace = PdfColorSpace::DeviceGray;
             }
             else if (bitsPixel == 8 || bitsPixel == 16)
             {
-- 
2.43.0


From ead61a1d7b599a78e83907b8218a8267881879ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 187/223] fix: gray TIFF images where zero is white are
 inverted

---
 src/pdfmm/base/PdfImage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 8c4453f..71498fa 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -763,6 +763,10 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else if (bitsPixel == 8 || bitsPixel == 16)
             {
+                PdfArray decode;
+                decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
+                decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
+                info.Decode = std::move(decode);
                 info.ColorSpace = PdfColorSpace::DeviceGray;
             }
             else
-- 
2.43.0


From 09f894cf8ebcdd7ff800c34af394a38427ae2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 188/223] fix: samples of 16 bit TIFF images are swapped

---
 src/pdfmm/base/PdfImage.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 71498fa..58e09a4 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -855,6 +855,19 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
     }
 
+    if (bitsPerSample == 16)
+    {
+        // libtiff returns the samples in the native byte
+        // order, while in PDF the high byte is always first
+        for (size_t i = 0; i + 1 < buffer.size(); i += 2)
+        {
+            uint16_t sample;
+            std::memcpy(&sample, buffer.data() + i, 2);
+            buffer[i] = (char)(sample >> 8);
+            buffer[i + 1] = (char)(sample & 0xFF);
+        }
+    }
+
     SpanStreamDevice input(buffer);
     SetDataRaw(input, info);
 }
-- 
2.43.0


From 0221a89a8ed53c7758f9583b998546f6e8725045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 189/223] fix: TIFF images with extra samples are taken for 16
 bit images

---
 src/pdfmm/base/PdfImage.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 58e09a4..b56d310 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -705,8 +705,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_YRESOLUTION, &resY);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_RESOLUTIONUNIT, &resolutionUnit);
 
-    int colorChannels = samplesPerPixel - extraSamples;
-
     int bitsPixel = bitsPerSample * samplesPerPixel;
 
     // TODO: implement special cases
@@ -715,7 +713,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
-    if (planarConfig != PLANARCONFIG_CONTIG && colorChannels != 1)
+    if (planarConfig != PLANARCONFIG_CONTIG && samplesPerPixel != 1)
     {
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
@@ -725,6 +723,9 @@ void PdfImage::loadFromTiffHandle(void* handle)
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
+    if (extraSamples != 0 || (samplesPerPixel > 1 && bitsPerSample != 8))
+        PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
     PdfImageInfo info;
     info.Width = width;
     info.Height = height;
@@ -733,6 +734,9 @@ void PdfImage::loadFromTiffHandle(void* handle)
     {
         case PHOTOMETRIC_MINISBLACK:
         {
+            if (samplesPerPixel != 1)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
             if (bitsPixel == 1)
             {
                 PdfArray decode;
@@ -753,6 +757,9 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
         case PHOTOMETRIC_MINISWHITE:
         {
+            if (samplesPerPixel != 1)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
             if (bitsPixel == 1)
             {
                 PdfArray decode;
-- 
2.43.0


From 3c2b5b48f81753b58b2a112c6677dbf13f2ef923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:15 +0000
Subject: [PATCH 190/223] fix: Decode arrays are ignored when decoding images

---
 src/pdfmm/base/PdfImage.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index b56d310..a161578 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -43,6 +43,8 @@ static void LoadFromPngContent(PdfImage& image, png_structp png, png_infop info)
 static void fetchPDFScanLineRGB(unsigned char* dstScanLine,
     unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat);
 
+static void applyDecode(charbuff& imageData, const PdfArray& decode);
+
 PdfImage::PdfImage(PdfDocument& doc, const string_view& prefix)
     : PdfXObject(doc, PdfXObjectType::Image, prefix), m_Width(0), m_Height(0)
 {
@@ -81,6 +83,10 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported number of bits per component");
 
         auto colorSpace = GetColorSpace();
+        auto decode = GetDictionary().FindKey("Decode");
+        if (decode != nullptr && decode->IsArray())
+            applyDecode(imageData, decode->GetArray());
+
         if (imageData.size() < (uint64_t)m_Width * m_Height * (colorSpace == PdfColorSpace::DeviceRGB ? 3 : 1))
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
 
@@ -1412,6 +1418,31 @@ unsigned PdfImage::getBufferSize(PdfPixelFormat format) const
     return (unsigned)ret;
 }
 
+// Map 8 bit samples to the ranges in the /Decode array
+void applyDecode(charbuff& imageData, const PdfArray& decode)
+{
+    unsigned components = decode.GetSize() / 2;
+    for (unsigned i = 0; i < components; i++)
+    {
+        double min;
+        double max;
+        auto minObj = decode.FindAt(2 * i);
+        auto maxObj = decode.FindAt(2 * i + 1);
+        if (minObj == nullptr || !minObj->TryGetReal(min)
+            || maxObj == nullptr || !maxObj->TryGetReal(max)
+            || (min == 0 && max == 1))
+        {
+            continue;
+        }
+
+        for (size_t j = i; j < imageData.size(); j += components)
+        {
+            double value = 255 * min + (unsigned char)imageData[j] * (max - min);
+            imageData[j] = (char)(unsigned char)std::lround(std::clamp(value, 0.0, 255.0));
+        }
+    }
+}
+
 void fetchPDFScanLineRGB(unsigned char* dstScanLine, unsigned width, const unsigned char* srcScanLine, PdfPixelFormat srcPixelFormat)
 {
     switch (srcPixelFormat)
-- 
2.43.0


From ac90a17f06160c17b92b961c502ea6c99fd7b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 191/223] fix: glyph indices with bytes above 127 in CID to GID
 maps are wrong

---
 src/pdfmm/base/PdfCIDToGIDMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCIDToGIDMap.cpp b/src/pdfmm/base/PdfCIDToGIDMap.cpp
index 61cf87b..bc3d944 100644
--- a/src/pdfmm/base/PdfCIDToGIDMap.cpp
+++ b/src/pdfmm/base/PdfCIDToGIDMap.cpp
@@ -25,7 +25,7 @@ PdfCIDToGIDMap PdfCIDToGIDMap::Create(const PdfObject& cidToGidMapObj, PdfGlyphA
     auto buffer = cidToGidMapObj.MustGetStream().GetCopy();
     for (unsigned i = 0, count = (unsigned)buffer.size() / 2; i < count; i++)
     {
-        unsigned gid = (unsigned)buffer[i * 2 + 0] << 8 | (unsigned)buffer[i * 2 + 1];
+        unsigned gid = (unsigned)(unsigned char)buffer[i * 2 + 0] << 8 | (unsigned)(unsigned char)buffer[i * 2 + 1];
         map[i] = gid;
     }
 
-- 
2.43.0


From d1b6e54bd4061be75558ecf48a87edd74cae6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 192/223] fix: exported CID to GID maps have the glyphs at
 wrong places

---
 src/pdfmm/base/PdfCIDToGIDMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCIDToGIDMap.cpp b/src/pdfmm/base/PdfCIDToGIDMap.cpp
index bc3d944..2a55f86 100644
--- a/src/pdfmm/base/PdfCIDToGIDMap.cpp
+++ b/src/pdfmm/base/PdfCIDToGIDMap.cpp
@@ -65,7 +65,7 @@ void PdfCIDToGIDMap::ExportTo(PdfObject& descendantFont)
 
         utls::WriteUInt16BE(entry.data(), (uint16_t)pair.second);
         output.Write(entry.data(), 2);
-        previousCid = cid;
+        previousCid = cid + 1;
     }
 }
 
-- 
2.43.0


From fc20450b10c5a6a46990e060e0efbbeb4a625e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 193/223] fix: character codes of different sizes are taken for
 the same code

---
 src/pdfmm/base/PdfEncodingCommon.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncodingCommon.cpp b/src/pdfmm/base/PdfEncodingCommon.cpp
index c19a8d4..d3accc0 100644
--- a/src/pdfmm/base/PdfEncodingCommon.cpp
+++ b/src/pdfmm/base/PdfEncodingCommon.cpp
@@ -27,7 +27,12 @@ PdfCharCode::PdfCharCode(unsigned code, unsigned char codeSpaceSize)
 
 bool PdfCharCode::operator<(const PdfCharCode& rhs) const
 {
-    return Code < rhs.Code;
+    // NOTE: Codes with the same value but a different size
+    // are different codes, eg. <41> and <0041>
+    if (Code != rhs.Code)
+        return Code < rhs.Code;
+
+    return CodeSpaceSize < rhs.CodeSpaceSize;
 }
 
 bool PdfCharCode::operator==(const PdfCharCode& rhs) const
-- 
2.43.0


From 18bf4b22d93cc4e2810bc17e56e64c13b3810996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 194/223] fix: NUL is encoded with undefined codes

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 11 +++++++++--
 src/pdfmm/base/PdfEncodingMap.cpp        |  4 ++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 6533d83..e1885fb 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2623,8 +2623,11 @@ void PdfDifferenceEncoding::buildReverseMap()
         codePoints.resize(1);
         if (m_differences.TryGetMappedName((unsigned char)code, name, codePoints[0]))
         {
-            // If there's a difference, use that instead
-            m_reverseMap[codePoints[0]] = code;
+            // If there's a difference, use that instead. NOTE: The
+            // name may have no known code point
+            if (codePoints[0] != U'\0')
+                m_reverseMap[codePoints[0]] = code;
+
             continue;
         }
 
@@ -2635,6 +2638,10 @@ void PdfDifferenceEncoding::buildReverseMap()
             continue;
         }
 
+        // Skip undefined codes
+        if (codePoints[0] == U'\0')
+            continue;
+
         // NOTE: It's safe to assume the base encoding maps to single code point
         m_reverseMap[codePoints[0]] = code;
     }
diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index 078b302..03b100e 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -540,6 +540,10 @@ void PdfBuiltInEncoding::InitEncodingTable()
     const char32_t* cpUnicodeTable = this->GetToUnicodeTable();
     for (size_t i = 0; i < 256; i++)
     {
+        // Skip undefined codes
+        if (cpUnicodeTable[i] == U'\0')
+            continue;
+
         // fill the table with data
         m_EncodingTable[cpUnicodeTable[i]] =
             static_cast<unsigned char>(i);
-- 
2.43.0


From e9be6189c0e29614626126a541861c9c2c6f2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 195/223] fix: glyph names that begin with uni make fonts fail
 to load

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index e1885fb..ddac529 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2669,10 +2669,11 @@ char32_t PdfDifferenceEncoding::NameToCodePoint(const string_view& name)
         auto code = name.substr(3);
         // force base16 IF it's 4 characters line
         unsigned val;
-        if (std::from_chars(code.data(), name.data() + name.length(), val, code.length() == 4 ? 16 : 10).ec != std::errc())
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
+        auto res = std::from_chars(code.data(), code.data() + code.length(), val, code.length() == 4 ? 16 : 10);
+        if (res.ec == std::errc() && res.ptr == code.data() + code.length())
+            return (char32_t)val;
 
-        return (char32_t)val;
+        // It's just a name that starts like that, eg. "universal"
     }
 
     return U'\0';
-- 
2.43.0


From be14845ad9f424582ae2fc99e8d019c551941412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 196/223] fix: glyph names made from code points are not valid

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index ddac529..2b75031 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2675,6 +2675,15 @@ char32_t PdfDifferenceEncoding::NameToCodePoint(const string_view& name)
 
         // It's just a name that starts like that, eg. "universal"
     }
+    else if (name.length() >= 5 && name.length() <= 7 && name[0] == 'u')
+    {
+        // The code point of "uXXXX" to "uXXXXXX"
+        unsigned val;
+        auto code = name.substr(1);
+        auto res = std::from_chars(code.data(), code.data() + code.length(), val, 16);
+        if (res.ec == std::errc() && res.ptr == code.data() + code.length() && val <= 0x10FFFF)
+            return (char32_t)val;
+    }
 
     return U'\0';
 }
@@ -2697,6 +2706,11 @@ PdfName PdfDifferenceEncoding::CodePointToName(char32_t inCodePoint)
     // if we get here, then we are looking up an undefined codepoint
     // so we'll just give it an arbitrary name..
     string buffer;
-    utls::FormatTo(buffer, "uni{:04x}", (unsigned)inCodePoint);
+    // NOTE: The form "uniXXXX" has exactly 4 digits. The digits
+    // are uppercase
+    if (inCodePoint > 0xFFFF)
+        utls::FormatTo(buffer, "u{:X}", (unsigned)inCodePoint);
+    else
+        utls::FormatTo(buffer, "uni{:04X}", (unsigned)inCodePoint);
     return PdfName(buffer);
 }
-- 
2.43.0


From 1fa2e42a9288c1b8ccf408a79f7f1e90551d8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 197/223] fix: fonts with differences from the standard
 encoding are not loaded

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 2b75031..c6b4a4c 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2512,6 +2512,8 @@ unique_ptr<PdfDifferenceEncoding> PdfDifferenceEncoding::Create(
             baseEncoding = PdfEncodingMapFactory::MacRomanEncodingInstance();
         else if (baseEncodingName == "MacExpertEncoding")
             baseEncoding = PdfEncodingMapFactory::MacExpertEncodingInstance();
+        else if (baseEncodingName == "StandardEncoding")
+            baseEncoding = PdfEncodingMapFactory::StandardEncodingInstance();
         else
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Invalid /BaseEncoding {}", baseEncodingName.GetString());;
     }
-- 
2.43.0


From 52eaf6be029f2b8507e02a7347570adbb29343a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 198/223] fix: differences of codes above 255 replace those of
 other codes

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index c6b4a4c..5fa9f67 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2541,7 +2541,10 @@ unique_ptr<PdfDifferenceEncoding> PdfDifferenceEncoding::Create(
             }
             else if (diff.IsName())
             {
-                difference.AddDifference(static_cast<unsigned>(curCode), diff.GetName(), explicitNames);
+                // NOTE: Ignore codes that are not valid
+                if (curCode >= 0 && curCode <= 0xFF)
+                    difference.AddDifference(static_cast<unsigned char>(curCode), diff.GetName(), explicitNames);
+
                 curCode++;
             }
         }
-- 
2.43.0


From 2ab46dcb7f78660e08d062b8e155b601dc0d764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 199/223] fix: codes that a character map does not map are
 converted when the others are an identity

---
 src/pdfmm/base/PdfCMapEncoding.cpp     |  2 +-
 src/pdfmm/base/PdfIdentityEncoding.cpp | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 03c8449..c3cbb86 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -71,7 +71,7 @@ unique_ptr<PdfEncodingMap> PdfCMapEncoding::CreateFromObject(const PdfObject& cm
         {
             if (it->second.size() > 1
                 || it->first.Code != it->second[0]
-                || it->first.Code > (prev + 1))
+                || it->first.Code != (prev + 1))
             {
                 identity = false;
                 break;
diff --git a/src/pdfmm/base/PdfIdentityEncoding.cpp b/src/pdfmm/base/PdfIdentityEncoding.cpp
index 491d3ff..b4d66b7 100644
--- a/src/pdfmm/base/PdfIdentityEncoding.cpp
+++ b/src/pdfmm/base/PdfIdentityEncoding.cpp
@@ -39,7 +39,9 @@ PdfIdentityEncoding::PdfIdentityEncoding(PdfIdentityOrientation orientation)
 bool PdfIdentityEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUnit) const
 {
     PDFMM_INVARIANT(m_Limits.MinCodeSize == m_Limits.MaxCodeSize);
-    if (utls::GetCharCodeSize(codePoint) > m_Limits.MaxCodeSize)
+    if (utls::GetCharCodeSize(codePoint) > m_Limits.MaxCodeSize
+        || codePoint < m_Limits.FirstChar.Code
+        || codePoint > m_Limits.LastChar.Code)
     {
         codeUnit = { };
         return false;
@@ -51,6 +53,14 @@ bool PdfIdentityEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUn
 
 bool PdfIdentityEncoding::tryGetCodePoints(const PdfCharCode& codeUnit, vector<char32_t>& codePoints) const
 {
+    if (codeUnit.CodeSpaceSize < m_Limits.MinCodeSize
+        || codeUnit.CodeSpaceSize > m_Limits.MaxCodeSize
+        || codeUnit.Code < m_Limits.FirstChar.Code
+        || codeUnit.Code > m_Limits.LastChar.Code)
+    {
+        return false;
+    }
+
     codePoints.push_back((char32_t)codeUnit.Code);
     return true;
 }
@@ -112,5 +122,5 @@ PdfEncodingLimits getLimits(unsigned char codeSpaceSize)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Code space size can't be zero or bigger than 4");
 
     return { codeSpaceSize, codeSpaceSize, PdfCharCode(0, codeSpaceSize),
-        PdfCharCode((unsigned)std::pow(2, codeSpaceSize * CHAR_BIT), codeSpaceSize) };
+        PdfCharCode((unsigned)((uint64_t(1) << codeSpaceSize * CHAR_BIT) - 1), codeSpaceSize) };
 }
-- 
2.43.0


From 541769166b8ff9f9e69cf5e88c7deab23ee875ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 200/223] fix: the first characters of ligatures are given an
 invalid code

---
 src/pdfmm/base/PdfCharCodeMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index cd65fd5..61e84a5 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -128,7 +128,8 @@ bool PdfCharCodeMap::TryGetCharCode(codepoint codePoint, PdfCharCode& code) cons
 {
     const_cast<PdfCharCodeMap&>(*this).reviseCPMap();
     auto node = findNode(m_codePointMapHead, codePoint);
-    if (node == nullptr)
+    // NOTE: The code point may be just the first one of a ligature
+    if (node == nullptr || node->CodeUnit.CodeSpaceSize == 0)
     {
         code = { };
         return false;
-- 
2.43.0


From ed13b30a6876dbb0f0b4552d5ec71d18b05b503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:33 +0000
Subject: [PATCH 201/223] fix: MacRomanEncoding has the euro sign in place of
 the currency sign

---
 src/pdfmm/base/PdfPredefinedEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPredefinedEncoding.cpp b/src/pdfmm/base/PdfPredefinedEncoding.cpp
index 635662e..9b37587 100644
--- a/src/pdfmm/base/PdfPredefinedEncoding.cpp
+++ b/src/pdfmm/base/PdfPredefinedEncoding.cpp
@@ -531,7 +531,7 @@ const char32_t PdfMacRomanEncoding::s_cEncoding[256] = {
     0x00FF, // LATIN SMALL LETTER Y WITH DIAERESIS
     0x0178, // LATIN CAPITAL LETTER Y WITH DIAERESIS
     0x2044, // FRACTION SLASH
-    0x20AC, // EURO SIGN
+    0x00A4, // CURRENCY SIGN. NOTE: It was not changed to the euro sign in PDF
     0x2039, // SINGLE LEFT-POINTING ANGLE QUOTATION MARK
     0x203A, // SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
     0xFB01, // LATIN SMALL LIGATURE FI
-- 
2.43.0


From aebd55942dd6a8f73c4393e8e7273961075db8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 202/223] fix: strings have no length with fonts that are not
 loaded from a document

---
 src/pdfmm/base/PdfFont.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index 2e1f269..12273f8 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -739,7 +739,6 @@ bool PdfFont::tryConvertToGIDs(const std::string_view& utf8Str, PdfGlyphAccess a
     {
         auto it = utf8Str.begin();
         auto end = utf8Str.end();
-        vector<unsigned> gids;
         while (it != end)
         {
             char32_t cp = utf8::next(it, end);
-- 
2.43.0


From 5790f08a6b7136761566c55206c73ad1d683887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 203/223] fix: the maps of one byte encodings miss the last
 code and map undefined ones

---
 src/pdfmm/base/PdfEncodingMap.cpp | 46 +++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index 03b100e..c8becde 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -413,26 +413,34 @@ void PdfEncodingMapOneByte::AppendToUnicodeEntries(OutputStream& stream, charbuf
     auto& limits = GetLimits();
     PDFMM_ASSERT(limits.MaxCodeSize == 1);
     vector<char32_t> codePoints;
-    unsigned code = limits.FirstChar.Code;
+    vector<pair<PdfCharCode, vector<char32_t>>> mappings;
     unsigned lastCode = limits.LastChar.Code;
-    stream.Write("1 beginbfrange\n");
-    limits.FirstChar.WriteHexTo(temp);
-    stream.Write(temp);
-    stream.Write(" ");
-    limits.LastChar.WriteHexTo(temp);
+    for (unsigned code = limits.FirstChar.Code; code <= lastCode; code++)
+    {
+        // NOTE: Skip the codes that are not defined in the encoding
+        PdfCharCode charCode(code);
+        if (!TryGetCodePoints(charCode, codePoints)
+            || codePoints.size() == 0 || codePoints[0] == U'\0')
+        {
+            continue;
+        }
+
+        mappings.push_back({ charCode, codePoints });
+    }
+
+    utls::FormatTo(temp, mappings.size());
     stream.Write(temp);
-    stream.Write(" [\n");
+    stream.Write(" beginbfchar\n");
     u16string u16tmp;
-    for (; code < lastCode; code++)
+    for (auto& mapping : mappings)
     {
-        if (!TryGetCodePoints(PdfCharCode(code), codePoints))
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Unable to find character code");
-
-        AppendUTF16CodeTo(stream, codePoints, u16tmp);
+        mapping.first.WriteHexTo(temp);
+        stream.Write(temp);
+        stream.Write(" ");
+        AppendUTF16CodeTo(stream, mapping.second, u16tmp);
         stream.Write("\n");
     }
-    stream.Write("]\n");
-    stream.Write("endbfrange");
+    stream.Write("endbfchar");
 }
 
 void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const PdfFont& font, charbuff& temp) const
@@ -450,11 +458,15 @@ void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const
     };
 
     vector<Mapping> mappings;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
+        // NOTE: Skip the codes that are not defined in the encoding
         PdfCharCode charCode(code);
-        if (!TryGetCodePoints(charCode, codePoints))
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Unable to find character code");
+        if (!TryGetCodePoints(charCode, codePoints)
+            || codePoints.size() == 0 || codePoints[0] == U'\0')
+        {
+            continue;
+        }
 
         // NOTE: CID mapping entries in a CMap also map CIDs to glyph
         // indices within the font program, unless a /CIDToGID map is
-- 
2.43.0


From 701b37c9b6f9dd38ac0dbc989e508f463af7afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 204/223] fix: code space ranges of exported character maps do
 not include all the codes

---
 src/pdfmm/base/PdfEncoding.cpp    | 52 +++----------------
 src/pdfmm/base/PdfEncodingMap.cpp | 84 +++++++++++++++++--------------
 src/pdfmm/base/PdfEncodingMap.h   |  5 ++
 3 files changed, 56 insertions(+), 85 deletions(-)

diff --git a/src/pdfmm/base/PdfEncoding.cpp b/src/pdfmm/base/PdfEncoding.cpp
index dab5a23..f42c4fc 100644
--- a/src/pdfmm/base/PdfEncoding.cpp
+++ b/src/pdfmm/base/PdfEncoding.cpp
@@ -567,60 +567,22 @@ void PdfEncoding::writeCIDMapping(PdfObject& cmapObj, const PdfFont& font, const
         ">> def\n"
         "/CMapName /{} def\n"
         "/CMapType 1 def\n"     // As defined in Adobe Technical Notes #5099
-        "1 begincodespacerange\n", fontName, cmapName);
+        , fontName, cmapName);
     output.Write(temp);
 
     if (font.IsSubsettingEnabled())
     {
-        struct Limit
-        {
-            PdfCharCode FirstCode;
-            PdfCharCode LastCode;
-        };
-
-        unordered_map<unsigned char, Limit> ranges;
-        auto& usedGids = font.GetUsedGIDs();
-        for (auto& pair : usedGids)
-        {
-            auto& codeUnit = pair.second.Unit;
-            auto found = ranges.find(codeUnit.CodeSpaceSize);
-            if (found == ranges.end())
-            {
-                ranges[codeUnit.CodeSpaceSize] = Limit{ codeUnit, codeUnit };
-            }
-            else
-            {
-                auto& limit = found->second;
-                if (codeUnit.Code < limit.FirstCode.Code)
-                    limit.FirstCode = codeUnit;
-
-                if (codeUnit.Code > limit.LastCode.Code)
-                    limit.LastCode = codeUnit;
-            }
-        }
+        vector<PdfCharCode> codes;
+        for (auto& pair : font.GetUsedGIDs())
+            codes.push_back(pair.second.Unit);
 
-        bool first = true;
-        for (auto& pair : ranges)
-        {
-            if (first)
-                first = false;
-            else
-                output.Write("\n");
-
-            auto& range = pair.second;
-            range.FirstCode.WriteHexTo(temp);
-            output.Write(temp);
-            range.LastCode.WriteHexTo(temp);
-            output.Write(temp);
-        }
+        PdfEncodingMap::AppendCodeSpaceRange(output, codes, temp);
     }
     else
     {
         m_Encoding->AppendCodeSpaceRange(output, temp);
     }
 
-    output.Write("\nendcodespacerange\n");
-
     if (font.IsSubsettingEnabled())
     {
         auto& usedGids = font.GetUsedGIDs();
@@ -670,10 +632,8 @@ void PdfEncoding::writeToUnicodeCMap(PdfObject& cmapObj) const
         "   /Supplement 0\n"
         ">> def\n"
         "/CMapName /Adobe-Identity-UCS def\n"
-        "/CMapType 2 def\n"     // As defined in Adobe Technical Notes #5099
-        "1 begincodespacerange\n");
+        "/CMapType 2 def\n");     // As defined in Adobe Technical Notes #5099
     toUnicode.AppendCodeSpaceRange(output, temp);
-    output.Write("\nendcodespacerange\n");
 
     toUnicode.AppendToUnicodeEntries(output, temp);
     output.Write(
diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index c8becde..2b65126 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -277,10 +277,52 @@ void PdfEncodingMap::AppendUTF16CodeTo(OutputStream& stream, const unicodeview&
 void PdfEncodingMap::AppendCodeSpaceRange(OutputStream& stream, charbuff& temp) const
 {
     auto& limits = GetLimits();
+    stream.Write("1 begincodespacerange\n");
     limits.FirstChar.WriteHexTo(temp);
     stream.Write(temp);
     limits.LastChar.WriteHexTo(temp);
     stream.Write(temp);
+    stream.Write("\nendcodespacerange\n");
+}
+
+void PdfEncodingMap::AppendCodeSpaceRange(OutputStream& stream, const vector<PdfCharCode>& codes, charbuff& temp)
+{
+    struct Limit
+    {
+        unsigned FirstCode;
+        unsigned LastCode;
+    };
+
+    // ISO 32000-1:2008 "9.7.6.2 CMap Mapping": a code is in the range
+    // if each one of its bytes is between the bytes of the limits
+    map<unsigned char, Limit> ranges;
+    for (auto& code : codes)
+    {
+        auto inserted = ranges.insert({ code.CodeSpaceSize, Limit{ code.Code, code.Code } });
+        auto& limit = inserted.first->second;
+        for (unsigned i = 0; i < code.CodeSpaceSize; i++)
+        {
+            unsigned mask = 0xFFU << i * CHAR_BIT;
+            if ((code.Code & mask) < (limit.FirstCode & mask))
+                limit.FirstCode = (limit.FirstCode & ~mask) | (code.Code & mask);
+
+            if ((code.Code & mask) > (limit.LastCode & mask))
+                limit.LastCode = (limit.LastCode & ~mask) | (code.Code & mask);
+        }
+    }
+
+    utls::FormatTo(temp, ranges.size());
+    stream.Write(temp);
+    stream.Write(" begincodespacerange\n");
+    for (auto& pair : ranges)
+    {
+        PdfCharCode(pair.second.FirstCode, pair.first).WriteHexTo(temp);
+        stream.Write(temp);
+        PdfCharCode(pair.second.LastCode, pair.first).WriteHexTo(temp);
+        stream.Write(temp);
+        stream.Write("\n");
+    }
+    stream.Write("endcodespacerange\n");
 }
 
 PdfEncodingMapBase::PdfEncodingMapBase(PdfCharCodeMap&& map, PdfEncodingMapType type)
@@ -310,47 +352,11 @@ void PdfEncodingMapBase::AppendCIDMappingEntries(OutputStream& stream, const Pdf
 
 void PdfEncodingMapBase::AppendCodeSpaceRange(OutputStream& stream, charbuff& temp) const
 {
-    // CHECK-ME: The limit inferr may be not needed anymore
-    struct Limit
-    {
-        PdfCharCode FirstCode;
-        PdfCharCode LastCode;
-    };
-
-    unordered_map<unsigned char, Limit> ranges;
+    vector<PdfCharCode> codes;
     for (auto& pair : *m_charMap)
-    {
-        auto& codeUnit = pair.first;
-        auto found = ranges.find(codeUnit.CodeSpaceSize);
-        if (found == ranges.end())
-        {
-            ranges[codeUnit.CodeSpaceSize] = Limit{ codeUnit, codeUnit };
-        }
-        else
-        {
-            auto& limit = found->second;
-            if (codeUnit.Code < limit.FirstCode.Code)
-                limit.FirstCode = codeUnit;
-
-            if (codeUnit.Code > limit.LastCode.Code)
-                limit.LastCode = codeUnit;
-        }
-    }
+        codes.push_back(pair.first);
 
-    bool first = true;
-    for (auto& pair : ranges)
-    {
-        if (first)
-            first = false;
-        else
-            stream.Write("\n");
-
-        auto& range = pair.second;
-        range.FirstCode.WriteHexTo(temp);
-        stream.Write(temp);
-        range.LastCode.WriteHexTo(temp);
-        stream.Write(temp);
-    }
+    PdfEncodingMap::AppendCodeSpaceRange(stream, codes, temp);
 }
 
 void PdfEncodingMapBase::AppendToUnicodeEntries(OutputStream& stream, charbuff& temp) const
diff --git a/src/pdfmm/base/PdfEncodingMap.h b/src/pdfmm/base/PdfEncodingMap.h
index c3ca2c8..2b6b526 100644
--- a/src/pdfmm/base/PdfEncodingMap.h
+++ b/src/pdfmm/base/PdfEncodingMap.h
@@ -148,6 +148,11 @@ protected:
 protected:
     virtual void AppendCodeSpaceRange(OutputStream& stream, charbuff& temp) const;
 
+    /**
+     * Append the code space ranges section that includes the given codes
+     */
+    static void AppendCodeSpaceRange(OutputStream& stream, const std::vector<PdfCharCode>& codes, charbuff& temp);
+
     /** During a WriteToUnicodeCMap append "beginbfchar" and "beginbfrange"
      * entries. "bf" stands for Base Font, see Adobe tecnichal notes #5014
      *
-- 
2.43.0


From 6f0e332632cc2a02b8030dda3a65a9dd17d6af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 205/223] fix: codes of more than 255 glyphs of a font cannot
 be told apart

---
 src/pdfmm/base/PdfFont.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index 12273f8..2b3264b 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -683,7 +683,8 @@ PdfCharCode PdfFont::AddCharCodeSafe(unsigned gid, const unicodeview& codePoints
     if (m_DynamicToUnicodeMap->TryGetCharCode(codePoints, code))
         return code;
 
-    code = PdfCharCode(m_DynamicToUnicodeMap->GetSize());
+    // NOTE: Use codes of a fixed size, so they can be separated
+    code = PdfCharCode(m_DynamicToUnicodeMap->GetSize(), 2);
     // NOTE: We assume in this context cid == gid identity
     m_DynamicCIDMap->PushMapping(code, gid);
     m_DynamicToUnicodeMap->PushMapping(code, codePoints);
@@ -770,7 +771,9 @@ bool PdfFont::tryAddSubsetGID(unsigned gid, const unicodeview& codePoints, PdfCI
     {
         // We start numberings CIDs from 1 since CID 0
         // is reserved for fallbacks
-        auto inserted = m_SubsetGIDs.try_emplace(gid, PdfCID((unsigned)m_SubsetGIDs.size() + 1));
+        // NOTE: Use codes of a fixed size, so they can be separated
+        unsigned id = (unsigned)m_SubsetGIDs.size() + 1;
+        auto inserted = m_SubsetGIDs.try_emplace(gid, PdfCID(id, PdfCharCode(id, 2)));
         cid = inserted.first->second;
         if (!inserted.second)
             return false;
-- 
2.43.0


From 0d22bcb705ac38462bc046344b62069b4d1ad8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 206/223] fix: text drawn after a save is missing in the fonts

---
 src/pdfmm/base/PdfFont.cpp        | 8 +++++++-
 src/pdfmm/base/PdfFontManager.cpp | 8 +++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index 2b3264b..cc35134 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -655,7 +655,7 @@ double PdfFont::GetDescent(const PdfTextState& state) const
 
 PdfCID PdfFont::AddSubsetGIDSafe(unsigned gid, const unicodeview& codePoints)
 {
-    PDFMM_ASSERT(m_SubsettingEnabled && !m_IsEmbedded);
+    PDFMM_ASSERT(m_SubsettingEnabled);
     auto found = m_SubsetGIDs.find(gid);
     if (found != m_SubsetGIDs.end())
         return found->second;
@@ -667,6 +667,9 @@ PdfCID PdfFont::AddSubsetGIDSafe(unsigned gid, const unicodeview& codePoints)
             "The encoding doesn't support these characters or the gid is already present");
     }
 
+    // The font has to be embedded again with the new glyph
+    m_IsEmbedded = false;
+
     return ret;
 }
 
@@ -688,6 +691,9 @@ PdfCharCode PdfFont::AddCharCodeSafe(unsigned gid, const unicodeview& codePoints
     // NOTE: We assume in this context cid == gid identity
     m_DynamicCIDMap->PushMapping(code, gid);
     m_DynamicToUnicodeMap->PushMapping(code, codePoints);
+
+    // The font has to be embedded again with the new code
+    m_IsEmbedded = false;
     return code;
 }
 
diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index 7c8596d..e1102d8 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -327,10 +327,12 @@ PdfFont* PdfFontManager::GetFont(FT_Face face, const PdfFontCreateParams& params
 void PdfFontManager::EmbedFonts()
 {
     // Embed all imported fonts
-    for (auto& pair : m_importedFonts)
+    // NOTE: Glyphs may have been added to fonts that were
+    // embedded in a previous save
+    for (auto& pair : m_fonts)
     {
-        for (auto& font : pair.second)
-            font->EmbedFont();
+        if (!pair.second.IsLoaded)
+            pair.second.Font->EmbedFont();
     }
 
     // Clear imported font cache
-- 
2.43.0


From df747579ad1e74d367d52471b84c562843b88c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 207/223] fix: text shown with ' and " is extracted from the
 previous line

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 7a6a213..3019b2f 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -307,6 +307,13 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                         ASSERT(context.BlockOpen, "No text block open");
 
                         auto& str = content.Stack[0].GetString();
+                        // NOTE: The string is shown on the next line
+                        if (content.Operator == PdfOperator::Quote
+                            || content.Operator == PdfOperator::DoubleQuote)
+                        {
+                            context.TStar_Operator();
+                        }
+
                         if (content.Operator == PdfOperator::DoubleQuote)
                         {
                             // Operator " arguments: aw ac string "
@@ -321,12 +328,6 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                                 std::move(lengths), std::move(positions)), true);
                         }
 
-                        if (content.Operator == PdfOperator::Quote
-                            || content.Operator == PdfOperator::DoubleQuote)
-                        {
-                            context.TStar_Operator();
-                        }
-
                         break;
                     }
                     // array TJ : Show one or more text strings
-- 
2.43.0


From 31dfaff96c31375d780a489b97547669f20a355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 208/223] fix: extracted text ignores the horizontal scaling

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 3019b2f..b1d3f7a 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -354,7 +354,8 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                                 // of text space. [...] This amount is subtracted from from the current horizontal or
                                 // vertical coordinate, depending on the writing mode"
                                 // It must be scaled by the font size
-                                double space = (-obj.GetReal() / 1000) * context.States.Current->PdfState.FontSize;
+                                double space = (-obj.GetReal() / 1000) * context.States.Current->PdfState.FontSize
+                                    * context.States.Current->PdfState.FontScale;
                                 context.AdvanceSpace(space);
                             }
                             else
@@ -377,6 +378,12 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                         context.States.Current->PdfState.WordSpacing = content.Stack[0].GetReal();
                         break;
                     }
+                    // Tz : horizontal scaling
+                    case PdfOperator::Tz:
+                    {
+                        context.States.Current->PdfState.FontScale = content.Stack[0].GetReal() / 100;
+                        break;
+                    }
                     // q : Save the current graphics state
                     case PdfOperator::q:
                     {
-- 
2.43.0


From 05c3465734d775c3dff976940a4e64df19b1c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:00 +0000
Subject: [PATCH 209/223] fix: an unknown keyword in the contents makes the
 text not extractable

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index b1d3f7a..e497505 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -436,6 +436,11 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                 context.XObjectStateIndices.pop_back();
                 break;
             }
+            case PdfContentType::UnexpectedKeyword:
+            {
+                // Ignore keywords that are not operators
+                break;
+            }
             default:
             {
                 throw runtime_error("Unsupported PdfContentType");
-- 
2.43.0


From 6a3d6e1b76666ee991460c072d63a93a5df0955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 210/223] fix: standard 14 fonts of loaded documents have the
 widths of other characters

---
 src/pdfmm/base/PdfFontMetricsStandard14.cpp |  7 ++++---
 src/pdfmm/base/PdfFontObject.cpp            | 11 ++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfFontMetricsStandard14.cpp b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
index cb9ffd4..76c1ce2 100644
--- a/src/pdfmm/base/PdfFontMetricsStandard14.cpp
+++ b/src/pdfmm/base/PdfFontMetricsStandard14.cpp
@@ -59,9 +59,10 @@ unique_ptr<PdfFontMetricsStandard14> PdfFontMetricsStandard14::create(
         if (widthsObj != nullptr)
         {
             auto& arrWidths = widthsObj->GetArray();
-            parsedWidths.reset(new vector<double>(arrWidths.size()));
-            for (auto& obj : arrWidths)
-                parsedWidths->push_back(obj.GetReal());
+            parsedWidths.reset(new vector<double>());
+            parsedWidths->reserve(arrWidths.size());
+            for (unsigned i = 0; i < arrWidths.GetSize(); i++)
+                parsedWidths->push_back(arrWidths.FindAt(i)->GetReal() / 1000.0); // Convert to PDF units
         }
     }
 
diff --git a/src/pdfmm/base/PdfFontObject.cpp b/src/pdfmm/base/PdfFontObject.cpp
index f4dfa9f..10b8247 100644
--- a/src/pdfmm/base/PdfFontObject.cpp
+++ b/src/pdfmm/base/PdfFontObject.cpp
@@ -12,8 +12,6 @@ using namespace std;
 using namespace mm;
 
 // All Standard14 fonts have glyphs that start with a
-// white space (code 0x20, or 32)
-static constexpr unsigned DEFAULT_STD14_FIRSTCHAR = 32;
 
 PdfFontObject::PdfFontObject(PdfObject& obj, const PdfFontMetricsConstPtr& metrics,
         const PdfEncoding& encoding) :
@@ -36,7 +34,14 @@ bool PdfFontObject::tryMapCIDToGID(unsigned cid, unsigned& gid) const
 {
     if (m_Metrics->IsStandard14FontMetrics() && !m_Encoding->HasParsedLimits())
     {
-        gid = cid - DEFAULT_STD14_FIRSTCHAR;
+        // The widths of the font program are indexed by glyph:
+        // the code selects the glyph by means of the character
+        char32_t codePoint = m_Encoding->GetCodePoint(cid);
+        if (codePoint == U'\0' || !m_Metrics->TryGetGID(codePoint, gid))
+        {
+            gid = 0;
+            return false;
+        }
     }
     else
     {
-- 
2.43.0


From 969b12d77eed701c747c3c9257ddfe1f7b170546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 211/223] fix: fonts that are not embedded have no encoding and
 no widths

---
 src/pdfmm/base/PdfFont.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index cc35134..3c5be91 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -229,7 +229,12 @@ void PdfFont::InitImported(bool wantEmbed, bool wantSubset)
 
 void PdfFont::EmbedFont()
 {
-    if (m_IsEmbedded || !m_EmbeddingEnabled)
+    if (m_IsEmbedded)
+        return;
+
+    // NOTE: Fonts that are not embedded still need the encoding and
+    // the widths, unless they are simple Standard14 fonts
+    if (!m_EmbeddingEnabled && m_Metrics->IsStandard14FontMetrics() && !IsCIDKeyed())
         return;
 
     if (m_SubsettingEnabled)
@@ -500,6 +505,9 @@ void PdfFont::FillDescriptor(PdfDictionary& dict) const
 
 void PdfFont::EmbedFontFile(PdfObject& descriptor)
 {
+    if (!m_EmbeddingEnabled)
+        return;
+
     auto fontdata = m_Metrics->GetOrLoadFontFileData();
     if (fontdata.empty())
         PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
-- 
2.43.0


From c2516803ca1655faa64b82bbe231a3733952c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 212/223] fix: extracted words and substrings have wrong
 positions and lengths when text is scaled

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 56 +++++++++++++++--------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index e497505..2431b88 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -65,6 +65,7 @@ public:
     StatefulString GetTrimmedEnd() const;
     double GetLengthRaw() const;
     double GetLength() const;
+    TextState GetStateAt(unsigned glyphIndex) const;
 private:
     vector<double> computeLengths(const vector<double>& rawLengths);
 public:
@@ -621,10 +622,10 @@ void addEntryChunk(vector<PdfTextEntry> &textEntries, StringChunkList &chunks, c
 
                     if (lowerIndex != 0)
                     {
-                        // Compute substring translation and apply it
+                        // Get the state at the first glyph of the substring
                         // TODO: Handle vertical scritps
-                        double substringTx = computeLength(strings, glyphAddresses, 0, lowerIndex - 1);
-                        textState.T_rm.Apply<Tx>(substringTx);
+                        auto& address = glyphAddresses[lowerIndex];
+                        textState = strings[address.StringIndex]->GetStateAt(address.GlyphIndex);
                     }
                 }
             }
@@ -762,7 +763,7 @@ StatefulString StatefulString::GetTrimmedBegin() const
         double length = 0;
         while (lowerIndex + 1 < StringPositions.size() && StringPositions[lowerIndex] < trimmedLen)
         {
-            length += Lengths[lowerIndex];
+            length += RawLengths[lowerIndex];
             lowerIndex++;
         }
 
@@ -849,14 +850,28 @@ double StatefulString::GetLength() const
     return length;
 }
 
+// Get the text state before showing the given glyph
+TextState StatefulString::GetStateAt(unsigned glyphIndex) const
+{
+    double length = 0;
+    for (unsigned i = 0; i < glyphIndex; i++)
+        length += RawLengths[i];
+
+    auto state = State;
+    state.T_m.Apply<Tx>(length);
+    state.ComputeT_rm();
+    return state;
+}
+
 vector<double> StatefulString::computeLengths(const vector<double>& rawLengths)
 {
-    // NOTE: the lengths are transformed accordingly to text state but
-    // are not CTM transformed
+    // NOTE: the raw lengths are in text space: transform
+    // them to user space, as it's done for the position
+    auto transform = State.T_rm.GetScalingRotation();
     vector<double> ret;
     ret.reserve(rawLengths.size());
     for (unsigned i = 0; i < rawLengths.size(); i++)
-        ret.push_back((Vector2(rawLengths[i], 0) * State.CTM.GetScalingRotation()).GetLength());
+        ret.push_back((Vector2(rawLengths[i], 0) * transform).GetLength());
 
     return ret;
 }
@@ -955,7 +970,7 @@ void ExtractionContext::cm_Operator(double a, double b, double c, double d, doub
     // matrix (CTM) by concatenating the specified matrix
     Matrix cm = Matrix::FromCoefficients(a, b, c, d, e, f);
     States.Current->CTM = cm * States.Current->CTM;
-    States.Current->ComputeT_rm();
+    States.Current->ComputeDependentState();
 }
 
 void ExtractionContext::Tm_Operator(double a, double b, double c, double d, double e, double f)
@@ -1075,7 +1090,13 @@ void ExtractionContext::tryAddEntry(const StatefulString& currStr)
 
                     // Add "fake" space
                     if (!(prevString->EndsWithWhiteSpace() || currStr.BeginsWithWhiteSpace()))
-                        Chunk->push_back(StatefulString(" ", prevString->State, { distance }, { 0 }));
+                    {
+                        // The space begins at the end of the previous
+                        // string, the distance must be in text space
+                        auto state = prevString->GetStateAt((unsigned)prevString->RawLengths.size());
+                        double scale = (Vector2(1, 0) * state.T_rm.GetScalingRotation()).GetLength();
+                        Chunk->push_back(StatefulString(" ", state, { scale == 0 ? 0 : distance / scale }, { 0 }));
+                    }
                 }
             }
         }
@@ -1147,7 +1168,7 @@ void splitStringBySpaces(vector<StatefulString> &separatedStrings, const Statefu
         getSubstringIndices(str.StringPositions, lowerPos, upperPosLim, lowerPosIndex, upperPosLimIndex);
         double length = 0;
         for (unsigned i = lowerPosIndex; i < upperPosLimIndex; i++)
-            length += str.Lengths[i];
+            length += str.RawLengths[i];
 
         // Fixed string positions after split
         auto positions = vector<unsigned>(str.StringPositions.begin() + lowerPosIndex, str.StringPositions.begin() + upperPosLimIndex);
@@ -1155,7 +1176,7 @@ void splitStringBySpaces(vector<StatefulString> &separatedStrings, const Statefu
             positions[i] = positions[i] > lowerPos ? positions[i] - lowerPos : 0;
 
         separatedStrings.push_back(StatefulString(std::move(separatedStr), state,
-            { str.Lengths.begin() + lowerPosIndex, str.Lengths.begin() + upperPosLimIndex },
+            { str.RawLengths.begin() + lowerPosIndex, str.RawLengths.begin() + upperPosLimIndex },
             std::move(positions)));
         lowerPos = previousPos;
         upperPosLim = (unsigned)str.String.length();
@@ -1254,7 +1275,8 @@ void TextState::ComputeDependentState()
 
 void TextState::ComputeSpaceLength()
 {
-    WordSpacingLength = (WordSpacingVectorRaw * T_m.GetScalingRotation()).GetLength();
+    // NOTE: It's compared with distances that are CTM transformed
+    WordSpacingLength = (WordSpacingVectorRaw * (T_m * CTM).GetScalingRotation()).GetLength();
 }
 
 void TextState::ComputeT_rm()
@@ -1309,7 +1331,7 @@ double computeLength(const vector<const StatefulString*>& strings, const vector<
         // NOTE: Include the last glyph
         auto str = strings[fromAddr.StringIndex];
         double length = 0;
-        for (unsigned i = 0; i <= toAddr.GlyphIndex; i++)
+        for (unsigned i = fromAddr.GlyphIndex; i <= toAddr.GlyphIndex; i++)
             length += str->Lengths[i];
 
         return length;
@@ -1320,14 +1342,10 @@ double computeLength(const vector<const StatefulString*>& strings, const vector<
         auto toStr = strings[toAddr.StringIndex];
 
         // Advance the position before the first glyph
-        auto fromPosition = fromStr->Position;
-        for (unsigned i = 0; i < fromAddr.GlyphIndex; i++)
-            fromPosition += Vector2(fromStr->Lengths[i], 0);
+        auto fromPosition = fromStr->GetStateAt(fromAddr.GlyphIndex).T_rm.GetTranslationVector();
 
         // NOTE: Include the last glyph
-        auto toPosition = toStr->Position;
-        for (unsigned i = 0; i <= toAddr.GlyphIndex; i++)
-            toPosition += Vector2(toStr->Lengths[i], 0);
+        auto toPosition = toStr->GetStateAt(toAddr.GlyphIndex + 1).T_rm.GetTranslationVector();
 
         return (fromPosition - toPosition).GetLength();
     }
-- 
2.43.0


From 41cd523cf5adb3f1cbdaccdbc38fe9cbf56459f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:42 +0000
Subject: [PATCH 213/223] fix: spaces are lost before extracted strings that
 include white spaces

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 2431b88..5f3d2ed 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -787,14 +787,7 @@ bool StatefulString::BeginsWithWhiteSpace() const
     auto& str = String;
     auto it = str.begin();
     auto end = str.end();
-    while (it != end)
-    {
-        char32_t cp = utf8::next(it, end);
-        if (utls::IsWhiteSpace(cp))
-            return true;
-    }
-
-    return false;
+    return it != end && utls::IsWhiteSpace(utf8::next(it, end));
 }
 
 bool StatefulString::EndsWithWhiteSpace() const
-- 
2.43.0


From d51de9a755951287b45a2124dcb05c96c2ec12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:34 +0000
Subject: [PATCH 214/223] fix: extracted text ignores the word spacing

---
 src/pdfmm/base/PdfFont.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index 3c5be91..846f368 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -344,6 +344,12 @@ bool PdfFont::TryScanString(const PdfString& encodedStr, const PdfTextState& sta
             success = false;
 
         length = getGlyphLength(GetCIDLengthRaw(cid.Id), state, false);
+
+        // ISO 32000-1:2008 "9.3.3 Word Spacing": it's applied to
+        // every occurrence of the single byte character code 32
+        if (cid.Unit.Code == 32 && cid.Unit.CodeSpaceSize == 1)
+            length += state.WordSpacing * state.FontScale;
+
         lengths.push_back(length);
         positions.push_back(prevOffset);
         prevOffset = (unsigned)utf8str.length();
-- 
2.43.0


From f678ee3bf7d6a4ed2f4e6652cebc6f80362f5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:50 +0000
Subject: [PATCH 215/223] fix: characters with the missing width of a font are
 thousand times wider

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 7664993..d595a09 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -122,6 +122,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
                 m_Matrix[i] = fontmatrixArr[i].GetReal();
         }
 
+        // NOTE: /MissingWidth is in the same units of /Widths
+        m_DefaultWidth *= m_Matrix[0];
+
         auto widths = font.GetDictionary().FindKey("Widths");
         if (widths != nullptr)
         {
-- 
2.43.0


From b945c1cc5d8fcf07059cfd4cf1e9a5be645146bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:50 +0000
Subject: [PATCH 216/223] fix: fonts with widths that are indirect objects are
 not loaded

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 26 ++++++++++---------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index d595a09..8898f49 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -130,8 +130,8 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         {
             auto& arrWidths = widths->GetArray();
             m_Widths.reserve(arrWidths.size());
-            for (auto& obj : arrWidths)
-                m_Widths.push_back(obj.GetReal() * m_Matrix[0]);
+            for (unsigned i = 0; i < arrWidths.GetSize(); i++)
+                m_Widths.push_back(arrWidths.MustFindAt(i).GetReal() * m_Matrix[0]);
         }
     }
     else if (subType == "CIDFontType0" || subType == "CIDFontType2")
@@ -198,21 +198,15 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         {
             // "W" array format is described in Pdf 32000:2008 "9.7.4.3
             // Glyph Metrics in CIDFonts"
-            PdfArray widthsArr = widths->GetArray();
+            auto& widthsArr = widths->GetArray();
             unsigned pos = 0;
             while (pos < widthsArr.GetSize())
             {
-                unsigned start = getCID(widthsArr[pos++]);
-                PdfObject* second = &widthsArr[pos];
-                if (second->IsReference())
+                unsigned start = getCID(widthsArr.MustFindAt(pos++));
+                auto& second = widthsArr.MustFindAt(pos);
+                if (second.IsArray())
                 {
-                    // second do not have an associated owner; use the one in pw
-                    second = &widths->GetDocument()->GetObjects().MustGetObject(second->GetReference());
-                    PDFMM_ASSERT(!second->IsNull());
-                }
-                if (second->IsArray())
-                {
-                    PdfArray arr = second->GetArray();
+                    auto& arr = second.GetArray();
                     pos++;
                     unsigned length = start + arr.GetSize();
                     PDFMM_ASSERT(length >= start);
@@ -220,16 +214,16 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
                         m_Widths.resize(length, m_DefaultWidth);
 
                     for (unsigned i = 0; i < arr.GetSize(); i++)
-                        m_Widths[start + i] = arr[i].GetReal() * m_Matrix[0];
+                        m_Widths[start + i] = arr.MustFindAt(i).GetReal() * m_Matrix[0];
                 }
                 else
                 {
-                    unsigned end = getCID(widthsArr[pos++]);
+                    unsigned end = getCID(widthsArr.MustFindAt(pos++));
                     unsigned length = end + 1;
                     if (length > m_Widths.size())
                         m_Widths.resize(length, m_DefaultWidth);
 
-                    double width = widthsArr[pos++].GetReal() * m_Matrix[0];
+                    double width = widthsArr.MustFindAt(pos++).GetReal() * m_Matrix[0];
                     for (unsigned i = start; i <= end; i++)
                         m_Widths[i] = width;
                 }
-- 
2.43.0


From a232f0acc971b157e42a61511bc23b8211e72294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:50 +0000
Subject: [PATCH 217/223] fix: the width of the character of a font with one is
 ignored

---
 src/pdfmm/base/PdfEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncoding.cpp b/src/pdfmm/base/PdfEncoding.cpp
index f42c4fc..df85097 100644
--- a/src/pdfmm/base/PdfEncoding.cpp
+++ b/src/pdfmm/base/PdfEncoding.cpp
@@ -51,7 +51,7 @@ PdfEncoding::PdfEncoding(const PdfObject& fontObj, const PdfEncodingMapConstPtr&
     if (lastCharObj != nullptr)
         m_ParsedLimits.LastChar = PdfCharCode(static_cast<unsigned>(lastCharObj->GetNumber()));
 
-    if (m_ParsedLimits.LastChar.Code > m_ParsedLimits.FirstChar.Code)
+    if (m_ParsedLimits.LastChar.Code >= m_ParsedLimits.FirstChar.Code)
     {
         // If found valid /FirstChar and /LastChar, valorize
         //  also the code size limits
-- 
2.43.0


From aaf7857625e156942b19a72e250e21dcf234da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:50 +0000
Subject: [PATCH 218/223] fix: widths of loaded CID fonts are those of other
 characters when the font maps CIDs to glyphs

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 8898f49..dfe2399 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -161,7 +161,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             if ((cidToGidMapObj = font.GetDictionary().FindKey("CIDToGIDMap")) != nullptr
                 && (stream = cidToGidMapObj->GetStream()) != nullptr)
             {
-                m_CIDToGIDMap.reset(new PdfCIDToGIDMap(PdfCIDToGIDMap::Create(*cidToGidMapObj, PdfGlyphAccess::Width | PdfGlyphAccess::FontProgram)));
+                m_CIDToGIDMap.reset(new PdfCIDToGIDMap(PdfCIDToGIDMap::Create(*cidToGidMapObj, PdfGlyphAccess::FontProgram)));
             }
         }
 
-- 
2.43.0


From 4a36e0203a5d7577f377711d114ed65d99b8ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:51 +0000
Subject: [PATCH 219/223] fix: text of form XObjects is extracted at wrong
 places

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 5f3d2ed..3e6f5b4 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -426,6 +426,8 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                         context.States.GetSize()
                     });
                     context.States.Push();
+                    auto matrix = ((const PdfXObjectForm&)*content.XObject).GetMatrix();
+                    context.cm_Operator(matrix[0], matrix[1], matrix[2], matrix[3], matrix[4], matrix[5]);
                 }
 
                 break;
-- 
2.43.0


From f15e7f40ae7a6b8f34583b493ca05b071ace3d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:47 +0000
Subject: [PATCH 220/223] fix: Full name of a field with a cycle of parents

---
 src/pdfmm/base/PdfField.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 46efbac..1a7aaeb 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -840,6 +840,8 @@ void PdfField::linkFieldObjectToParent(const shared_ptr<PdfField>& field, PdfFie
 
 void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname)
 {
+    // NOTE: Malformed documents can have cycles of parents
+    utls::RecursionGuard guard;
     auto& dict = obj.GetDictionary();
     auto parent = dict.FindKey("Parent");
     if (parent != nullptr)
-- 
2.43.0


From 1a41b6dd0ab190cf70d0544095cd3a7df55e16c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:31 +0000
Subject: [PATCH 221/223] fix: Copy of streams whose decode parameters refer to
 themselves

---
 src/pdfmm/base/PdfObjectStream.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index b7f50d0..23115d9 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -215,7 +215,9 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     rhs.m_Parent->SetDirty();
 
     // Fix the /Filter and /DecodeParms keys for
-    // both objects after the stream has been moved
+    // both objects after the stream has been moved.
+    // NOTE: Copy the values only, in malformed documents
+    // they can be streams that refer to themselves
     auto& lhsDict = m_Parent->GetDictionary();
     auto& rhsDict = rhs.m_Parent->GetDictionary();
     auto filter = rhsDict.FindKey(PdfName::KeyFilter);
@@ -225,7 +227,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     }
     else
     {
-        lhsDict.AddKey(PdfName::KeyFilter, *filter);
+        lhsDict.AddKey(PdfName::KeyFilter, PdfObject(filter->GetVariant()));
         rhsDict.RemoveKey(PdfName::KeyFilter);
     }
 
@@ -236,7 +238,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     }
     else
     {
-        lhsDict.AddKey(DecodeParmsKey, *decodeParms);
+        lhsDict.AddKey(DecodeParmsKey, PdfObject(decodeParms->GetVariant()));
         rhsDict.RemoveKey(DecodeParmsKey);
     }
 
@@ -254,20 +256,22 @@ void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
 
     m_Parent->SetDirty();
 
-    // Copy the /Filter and /DecodeParms keys
+    // Copy the /Filter and /DecodeParms keys.
+    // NOTE: Copy the values only, in malformed documents
+    // they can be streams that refer to themselves
     auto& lhsDict = m_Parent->GetDictionary();
     auto& rhsDict = rhs.m_Parent->GetDictionary();
     auto filter = rhsDict.FindKey(PdfName::KeyFilter);
     if (filter == nullptr)
         lhsDict.RemoveKey(PdfName::KeyFilter);
     else
-        lhsDict.AddKey(PdfName::KeyFilter, *filter);
+        lhsDict.AddKey(PdfName::KeyFilter, PdfObject(filter->GetVariant()));
 
     auto decodeParms = rhsDict.FindKey(DecodeParmsKey);
     if (decodeParms == nullptr)
         lhsDict.RemoveKey(DecodeParmsKey);
     else
-        lhsDict.AddKey(DecodeParmsKey, *decodeParms);
+        lhsDict.AddKey(DecodeParmsKey, PdfObject(decodeParms->GetVariant()));
 
     m_Filters = rhs.m_Filters;
 }
-- 
2.43.0


From b791d6d44efe6de12a82e46e2859da9d65fd4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:31 +0000
Subject: [PATCH 222/223] fix: Adding a name to a tree with a cycle of nodes

---
 src/pdfmm/base/PdfNameTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index bb96d5c..e5661a3 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -53,6 +53,7 @@ private:
 
 bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
 {
+    utls::RecursionGuard guard;
     if (m_HasKids)
     {
         const PdfArray& kids = this->GetObject()->GetDictionary().MustFindKey("Kids").GetArray();
-- 
2.43.0


From 288c4208e703cfca4b842b776b0377c573bdcf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:00 +0000
Subject: [PATCH 223/223] fix: aligned text with tabs is drawn at the wrong
 place

---
 src/pdfmm/base/PdfPainter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 90df323..6354f72 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -577,7 +577,8 @@ void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, dou
 
     m_tmpStream << "BT" << endl;
     writeTextState();
-    drawTextAligned(str, x, y, width, hAlignment);
+    // NOTE: The text has to be aligned as it will be drawn
+    drawTextAligned(this->expandTabs(str), x, y, width, hAlignment);
     m_tmpStream << "ET" << endl;
 }
 
-- 
2.43.0

