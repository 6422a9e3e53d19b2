From 7c7dc3e19c3106a2c2f9496a0f881dab425eb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:29 +0000
Subject: [PATCH 01/61] fix: keep a name or array element when an input buffer
 ends right after it

---
 include/json_struct/json_struct.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..2d6dc3a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2699,11 +2699,18 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       }
 
       tmp_token.name_type = Internal::getType(type, tmp_token.name.data, tmp_token.name.size);
+      if (intermediate_token.active)
+        intermediate_token.name_type = tmp_token.name_type;
       token_state = InTokenState::FindingDelimiter;
       resetForNewValue();
       break;
 
     case InTokenState::FindingDelimiter:
+      if (intermediate_token.active)
+      {
+        tmp_token.name = DataRef(intermediate_token.name);
+        tmp_token.name_type = intermediate_token.name_type;
+      }
       error = findDelimiter(json_data, &diff);
       if (error != Error::NoError)
       {
@@ -2804,6 +2811,15 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  // The buffer ended between a name (or an array element) and what follows it: keep
+  // it, because tmp_token refers to a buffer that is about to be released.
+  if (!intermediate_token.active &&
+      (token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData))
+  {
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From 0a6993d53752d75924eb2a2189950cb1d412e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 02/61] fix: apply an escape pending from the previous buffer
 to its first character in the SIMD string scan

---
 include/json_struct/json_struct.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2d6dc3a..62cd29b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -445,6 +445,13 @@ inline size_t findStringEndSIMD(const char *JSON_STRUCT_RESTRICT data, size_t le
   const char *current = data;
   const char *end = data + length;
 
+  // An escape pending from the previous buffer consumes the first character.
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   const __m128i quote = _mm_set1_epi8('"');
   const __m128i backslash = _mm_set1_epi8('\\');
 
@@ -534,6 +541,13 @@ inline size_t findStringEndNEON(const char *JSON_STRUCT_RESTRICT data, size_t le
   const char *current = data;
   const char *end = data + length;
 
+  // An escape pending from the previous buffer consumes the first character.
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   const uint8x16_t quote = vdupq_n_u8('"');
   const uint8x16_t backslash = vdupq_n_u8('\\');
 
@@ -1140,6 +1154,13 @@ inline size_t findStringEndAVX2(const char *JSON_STRUCT_RESTRICT data, size_t le
   const char *current = data;
   const char *end = data + length;
 
+  // An escape pending from the previous buffer consumes the first character.
+  if (JSON_STRUCT_UNLIKELY(is_escaped && current < end))
+  {
+    is_escaped = false;
+    current++;
+  }
+
   const __m256i quote = _mm256_set1_epi8('"');
   const __m256i backslash = _mm256_set1_epi8('\\');
 
-- 
2.43.0


From dbeefc624c4229bae9803ddddb55ef4ff41e43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:12 +0000
Subject: [PATCH 03/61] fix: do not drop the leading punctuation of an unquoted
 value, nor a stray backslash

---
 include/json_struct/json_struct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 62cd29b..cd101a5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2269,13 +2269,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_LIKELY(lc & Internal::AsciiLetters))
+    else if (JSON_STRUCT_LIKELY(lc & (Internal::AsciiLetters | Internal::HatUnderscoreAprostoph)))
     {
       *type = Type::Ascii;
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_UNLIKELY(lc == 0))
+    else if (JSON_STRUCT_UNLIKELY(!(lc & Internal::WhiteSpaceOrNull)))
     {
       *chars_ahead = current_pos - cursor_index;
       return Error::EncounteredIllegalChar;
-- 
2.43.0


From 827cf500fc0d1d439532fb9261d6b6de7fc5f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:12 +0000
Subject: [PATCH 04/61] fix: reject an unquoted word as an array element unless
 unquoted values are allowed

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index cd101a5..5b9c702 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2748,6 +2748,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       expecting_prop_or_anonymous_data = false;
       if (token_state == InTokenState::FindingName)
       {
+        if (tmp_token.name_type == Type::Ascii && !allow_ascii_properties)
+          return Error::IllegalDataValue;
         populate_anonymous_token(tmp_token.name, tmp_token.name_type, next_token);
         return Error::NoError;
       }
-- 
2.43.0


From d3ab5323b0929ce0f40d9437d6bb1413d55407b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:12 +0000
Subject: [PATCH 05/61] fix: reject a property that has no value

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5b9c702..af4adcd 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2807,6 +2807,9 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
         type = intermediate_token.data_type;
       }
 
+      if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+        return Error::ExpectedDataToken;
+
       tmp_token.value = data;
       tmp_token.value_type = Internal::getType(type, tmp_token.value.data, tmp_token.value.size);
 
-- 
2.43.0


From bdf4132d4d2c58517c34822fb726ce121373e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:12 +0000
Subject: [PATCH 06/61] fix: reject an object or array in the place of a
 property name

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index af4adcd..6e7968e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2706,6 +2706,8 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
 
         case Type::ObjectStart:
         case Type::ArrayStart:
+          if (container_stack.size() && container_stack.back() == Type::ObjectStart)
+            return Error::ExpectedPropertyName;
           populate_anonymous_token(data, type, next_token);
           expecting_prop_or_anonymous_data = false;
           token_state = InTokenState::FindingName;
-- 
2.43.0


From fc00d0409c34545fc528cf6a4cd5eb7105baa581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:09 +0000
Subject: [PATCH 07/61] fix: continue a comment that crosses the end of an
 input buffer

---
 include/json_struct/json_struct.h | 74 +++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6e7968e..123abce 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1425,6 +1425,13 @@ private:
     FoundEnd
   };
 
+  enum class CommentState : unsigned char
+  {
+    NotInComment,
+    PendingSlash,
+    InComment
+  };
+
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1434,6 +1441,7 @@ private:
   Error findDelimiter(const DataRef &json_data, size_t *chars_ahead);
   Error findTokenEnd(const DataRef &json_data, size_t *chars_ahead);
   Error skipComment(const DataRef &json_data, size_t *chars_ahead);
+  Error resumeComment(const DataRef &json_data);
   void requestMoreData();
   void releaseFirstDataRef();
   Error populateFromDataRef(DataRef &data, Type &type, const DataRef &json_data);
@@ -1443,6 +1451,7 @@ private:
   InTokenState token_state = InTokenState::FindingName;
   InPropertyState property_state = InPropertyState::NoStartFound;
   Type property_type = Type::Error;
+  CommentState comment_state = CommentState::NotInComment;
   bool is_escaped;
   bool allow_ascii_properties : 1;
   bool allow_new_lines : 1;
@@ -2232,6 +2241,11 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       current_pos = cursor_index - 1;
       continue;
     }
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 == json_data.size))
+    {
+      comment_state = CommentState::PendingSlash;
+      return Error::NeedMoreData;
+    }
 
     if (JSON_STRUCT_LIKELY(c == '"'))
     {
@@ -2330,6 +2344,11 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
       end = cursor_index - 1;
       continue;
     }
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = CommentState::PendingSlash;
+      return Error::NeedMoreData;
+    }
 
     // Cache container type to avoid multiple back() calls
     Type container_type = container_stack.back();
@@ -2412,6 +2431,11 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
       end = cursor_index - 1;
       continue;
     }
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = CommentState::PendingSlash;
+      return Error::NeedMoreData;
+    }
 
     if (JSON_STRUCT_LIKELY(c == ','))
     {
@@ -2489,9 +2513,53 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
     }
     return Error::NoError;
   }
+  comment_state = CommentState::InComment;
   return Error::NeedMoreData;
 }
 
+// Continues with a comment, or a slash that may start one, from the end of the previous buffer.
+inline Error Tokenizer::resumeComment(const DataRef &json_data)
+{
+  if (cursor_index >= json_data.size)
+    return Error::NeedMoreData;
+  if (comment_state == CommentState::PendingSlash)
+  {
+    comment_state = CommentState::NotInComment;
+    if (json_data.data[cursor_index] != '/')
+    {
+      if (token_state == InTokenState::FindingDelimiter)
+        return Error::ExpectedDelimiter;
+      if (token_state == InTokenState::FindingTokenEnd)
+        return Error::InvalidToken;
+      // The slash was the start of an unquoted name or value
+      property_type = Type::Ascii;
+      property_state = InPropertyState::FindingEnd;
+      intermediate_token.active = true;
+      if (token_state == InTokenState::FindingName)
+      {
+        intermediate_token.name = "/";
+        intermediate_token.name_type = Type::Ascii;
+        intermediate_token.name_type_set = true;
+      }
+      else
+      {
+        intermediate_token.data = "/";
+        intermediate_token.data_type = Type::Ascii;
+        intermediate_token.data_type_set = true;
+      }
+      return Error::NoError;
+    }
+    cursor_index++;
+  }
+  size_t comment_skip;
+  Error error = skipComment(json_data, &comment_skip);
+  if (error != Error::NoError)
+    return error;
+  cursor_index += comment_skip;
+  comment_state = CommentState::NotInComment;
+  return Error::NoError;
+}
+
 inline void Tokenizer::requestMoreData()
 {
   if (need_more_data_callback)
@@ -2652,6 +2720,12 @@ inline size_t strnlen(const char *data, size_t size)
 inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const DataRef &json_data)
 {
   Token tmp_token;
+  if (JSON_STRUCT_UNLIKELY(comment_state != CommentState::NotInComment))
+  {
+    Error comment_error = resumeComment(json_data);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
   while (cursor_index < json_data.size)
   {
     size_t diff = 0;
-- 
2.43.0


From 646cf6bab5839f996ee33b9dda1a548c383c5803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:09 +0000
Subject: [PATCH 08/61] fix: resetData discards the lexical state of the input
 it replaces

---
 include/json_struct/json_struct.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 123abce..e5b2b8f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1432,6 +1432,7 @@ private:
     InComment
   };
 
+  void resetState();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1683,7 +1684,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetState();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1696,6 +1697,20 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
+  resetState();
+}
+
+inline void Tokenizer::resetState()
+{
+  token_state = InTokenState::FindingName;
+  comment_state = CommentState::NotInComment;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  container_stack.clear();
+  scope_counter.clear();
+  copy_buffers.clear();
+  error_context.clear();
   resetForNewToken();
 }
 
-- 
2.43.0


From 102cdaaabbd959821161a99a48af1f7eaa9aa4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:50 +0000
Subject: [PATCH 09/61] fix: parse numbers with leading zeros or more than 19
 digits by their value

---
 include/json_struct/json_struct.h | 45 +++++++++++++++++++------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e5b2b8f..05fe302 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8036,7 +8036,8 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 {
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
-  int desimal_position = -1;
+  bool seen_desimal = false;
+  int exponent_adjustment = 0;
   bool increase_significand = true;
 
   parsedString.negative = false;
@@ -8065,16 +8066,23 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 
     if (c == '.')
     {
-      if (desimal_position >= 0)
+      if (seen_desimal)
         return parse_string_error::multiple_commas;
-      desimal_position = parsedString.significand_digit_count;
+      seen_desimal = true;
     }
     else
     {
+      // A digit that is kept after the desimal point scales the significand down, and
+      // a digit that is dropped before it scales the significand up. Leading zeros are
+      // not significant.
+      bool kept = true;
       bool keep_digit = NoDigitCount;
       if (!keep_digit)
         keep_digit = parsedString.significand_digit_count < 19;
-      if (keep_digit)
+      if (parsedString.significand == 0 && c == '0')
+      {
+      }
+      else if (keep_digit)
       {
         parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
         parsedString.significand_digit_count++;
@@ -8087,21 +8095,27 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
                       "When NoDigitCount is used the significand type has to be uint64_t");
         auto biggest_multiplier = (std::numeric_limits<uint64_t>::max() - digit) / parsedString.significand;
 
-        if (biggest_multiplier >= 10)
+        kept = biggest_multiplier >= 10;
+        if (kept)
         {
           parsedString.significand = parsedString.significand * uint64_t(10) + digit;
           parsedString.significand_digit_count++;
         }
       }
+      else
+      {
+        kept = false;
+      }
+      if (kept && seen_desimal)
+        exponent_adjustment--;
+      else if (!kept && !seen_desimal)
+        exponent_adjustment++;
     }
     current++;
   }
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
-    if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
-    else
-      parsedString.exp = 0;
+    parsedString.exp = exponent_adjustment;
     return parse_string_error::ok;
   }
   current++;
@@ -8142,10 +8156,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (exponent_nagative)
     exponent = -exponent;
 
-  if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
-  else
-    parsedString.exp = exponent;
+  parsedString.exp = exponent_adjustment + exponent;
   return parse_string_error::ok;
 }
 
@@ -8177,6 +8188,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8186,10 +8201,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
-- 
2.43.0


From cbea0e762785912fb516f6354e470ed9cf0c9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:50 +0000
Subject: [PATCH 10/61] fix: saturate integers that are out of range instead of
 wrapping or dropping the sign

---
 include/json_struct/json_struct.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 05fe302..86142f7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8084,8 +8084,14 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
       }
       else if (keep_digit)
       {
-        parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
-        parsedString.significand_digit_count++;
+        const T digit = T(int(c) - '0');
+        kept = increase_significand && parsedString.significand <= (T(~T(0)) - digit) / T(10);
+        if (kept)
+        {
+          parsedString.significand = parsedString.significand * T(10) + digit;
+          parsedString.significand_digit_count++;
+        }
+        increase_significand = kept;
       }
       else if (increase_significand && parsedString.significand_digit_count < 20)
       {
@@ -8116,6 +8122,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
     parsedString.exp = exponent_adjustment;
+    parsedString.inf = NoDigitCount && !increase_significand && parsedString.exp > 0;
     return parse_string_error::ok;
   }
   current++;
@@ -8157,6 +8164,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
     exponent = -exponent;
 
   parsedString.exp = exponent_adjustment + exponent;
+  parsedString.inf = NoDigitCount && !increase_significand && parsedString.exp > 0;
   return parse_string_error::ok;
 }
 
@@ -8351,8 +8359,10 @@ inline typename std::enable_if<std::is_signed<T>::value, T>::type make_integer_r
 
 template <typename T, typename SignificandType>
 inline typename std::enable_if<std::is_unsigned<T>::value, T>::type make_integer_return_value(
-  SignificandType significand, bool)
+  SignificandType significand, bool negative)
 {
+  if (negative)
+    return T(0);
   if (SignificandType(significand) > SignificandType(std::numeric_limits<T>::max()))
     return std::numeric_limits<T>::max();
   return T(significand);
@@ -8368,6 +8378,8 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
 
   int exp = parsed.exp;
   auto significand = parsed.significand;
+  if (significand == 0)
+    return T(0);
   if (exp < 0)
   {
     int chars_in_sig = count_chars(significand);
@@ -8386,6 +8398,8 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
       return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
     while (exp > 0)
     {
+      if (significand > SignificandType(~SignificandType(0)) / 10)
+        return parsed.negative ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
       significand *= 10;
       exp--;
     }
-- 
2.43.0


From 9d06a95f1c40c0ca060280122dd9521ff4d1224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:50 +0000
Subject: [PATCH 11/61] fix: do not parse a number that has no digits as zero

---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 86142f7..a2d539a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8037,6 +8037,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
   bool seen_desimal = false;
+  bool seen_digit = false;
   int exponent_adjustment = 0;
   bool increase_significand = true;
 
@@ -8075,6 +8076,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
       // A digit that is kept after the desimal point scales the significand down, and
       // a digit that is dropped before it scales the significand up. Leading zeros are
       // not significant.
+      seen_digit = true;
       bool kept = true;
       bool keep_digit = NoDigitCount;
       if (!keep_digit)
@@ -8119,6 +8121,8 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
     }
     current++;
   }
+  if (!seen_digit)
+    return parse_string_error::invalid_format;
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
     parsedString.exp = exponent_adjustment;
-- 
2.43.0


From 226873f96f347e06229f5443391622606ebdd0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:44 +0000
Subject: [PATCH 12/61] fix: escape every control character in a serialized
 string

---
 include/json_struct/json_struct.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a2d539a..5e24596 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6110,7 +6110,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6119,7 +6119,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6136,7 +6136,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6153,7 +6153,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6205,7 +6205,10 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
       buffer.append("\\\\", 2);
       break;
     default:
-      buffer.push_back(cur);
+      // the other control characters have no short form
+      buffer.append("\\u00", 4);
+      buffer.push_back("0123456789abcdef"[(cur >> 4) & 0xf]);
+      buffer.push_back("0123456789abcdef"[cur & 0xf]);
       break;
     }
     i++;
-- 
2.43.0


From fec73042167a06d308a2506f33ce843deedeadb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:44 +0000
Subject: [PATCH 13/61] fix: do not read the uninitialized digits of a
 malformed low surrogate

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5e24596..74fc4d6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6039,7 +6039,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
         // which 4 are the current hex digits, so a trailing "\uXXXX" needs 6 more.
         if (cp >= 0xD800 && cp <= 0xDBFF && size >= 10 && next_it[6] == '\\' && next_it[7] == 'u')
         {
-          unsigned char lo[4];
+          unsigned char lo[4] = {0, 0, 0, 0};
           bool lo_ok = true;
           for (int k = 0; lo_ok && k < 4; k++)
           {
-- 
2.43.0


From ef0af9eea4ba0c56844a06b5215a146ae1e30a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:44 +0000
Subject: [PATCH 14/61] fix: reject an enum number that is no enumerator and do
 not index past the names

---
 include/json_struct/json_struct.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 74fc4d6..4d9e7bc 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5948,6 +5948,8 @@ struct EnumHandler
       auto err = TypeHandler<enum_int_t>::to(tmp, context);
       if (err != Error::NoError)
         return err;
+      if (tmp < 0 || static_cast<size_t>(tmp) >= F::strings().size())
+        return Error::IllegalDataValue;
       to_type = static_cast<T>(tmp);
       return Error::NoError;
     }
@@ -5958,7 +5960,14 @@ struct EnumHandler
   static inline void from(const T &from_type, Token &token, Serializer &serializer)
   {
     size_t i = static_cast<size_t>(from_type);
-    token.value = F::strings()[i];
+    auto &strings = F::strings();
+    if (i >= strings.size())
+    {
+      using enum_int_t = typename std::underlying_type<T>::type;
+      TypeHandler<enum_int_t>::from(static_cast<enum_int_t>(from_type), token, serializer);
+      return;
+    }
+    token.value = strings[i];
     token.value_type = Type::String;
     serializer.write(token);
   }
-- 
2.43.0


From 1f43b1466fd5f30771b8147547f55169040ec1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:44 +0000
Subject: [PATCH 15/61] fix: an enumerator name may start with an underscore

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4d9e7bc..da779b5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5708,7 +5708,7 @@ void populateEnumNames(std::vector<DataRef> &names, const char (&data)[N])
     switch (state)
     {
     case ParseEnumStringState::FindingNameStart:
-      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))
+      if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_')
       {
         name_starts_at = i;
         state = ParseEnumStringState::FindingNameEnd;
-- 
2.43.0


From 1308c09dc4100e5f20d1324a864212acb523f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 16/61] fix: setStyle(Compact) writes no newlines

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index da779b5..36751f2 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3367,7 +3367,7 @@ inline bool Serializer::write(const Token &in_token)
   }
 
   bool shortcut_front = false;
-  if (m_option.shiftSize() == 2 && !m_first)
+  if (m_option.style() == SerializerOptions::Pretty && m_option.shiftSize() == 2 && !m_first)
   {
     if (!m_token_start && !isEnd && m_option.tokenDelimiter().empty())
     {
-- 
2.43.0


From f3731dff80f8cd834b7a6a261ad6b679d8cf3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 17/61] fix: serialize more than 255 levels of nesting

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 36751f2..e673b65 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1514,7 +1514,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1526,7 +1526,7 @@ public:
 
 private:
   uint8_t m_shift_size;
-  uint8_t m_depth;
+  int m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3247,7 +3247,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3285,7 +3285,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From f752370f9114aa4175586571b17f599d774cdc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 18/61] fix: report a refused buffer instead of repeating the
 separator

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e673b65..4c7d6f1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3410,6 +3410,8 @@ inline bool Serializer::write(const Token &in_token)
       else if (m_option.depth() == 5)
         shortcut_front = write(begining_literals.get<4>());
     }
+    if (!shortcut_front && m_option.depth() >= 1 && m_option.depth() <= 5)
+      return false;
   }
 
   if (!shortcut_front)
-- 
2.43.0


From 128a8d2996d7a8904420bc1ba93537da7d1fc1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 19/61] fix: stop at the end of a truncated object that is
 parsed to a map

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4c7d6f1..48e5942 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9911,12 +9911,14 @@ struct TypeHandlerMap
       std::string str;
       Internal::handle_json_escapes_in(context.token.name, str);
       Key key(str.data(), str.size());
-      Value v;
+      Value v{};
       error = TypeHandler<Value>::to(v, context);
       to_type[std::move(key)] = std::move(v);
       if (error != JS::Error::NoError)
         return error;
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From 0b866f41e5629bd227032b465bfcc51f22769987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 20/61] fix: escape the keys of a serialized map

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 48e5942..aebe5dd 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9931,7 +9931,9 @@ struct TypeHandlerMap
     serializer.write(token);
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      const std::string &key = it->first;
+      std::string buffer;
+      token.name = Internal::handle_json_escapes_out(key, buffer);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From a76084ae6794bd2d8a1b8e42f4ac9be6b7457535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 21/61] fix: set the size of a full ArrayVariableContent

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index aebe5dd..b9c0d8a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10292,6 +10292,7 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       return JS::Error::ExpectedArrayStart;
 
     context.nextToken();
+    to_type.size = COUNT;
     for (size_t i = 0; i < COUNT; i++)
     {
       if (context.error != JS::Error::NoError)
-- 
2.43.0


From 470c6af97cfed5ff947d83ddb93d91f690a0e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 22/61] fix: parsing a single value to OneOrMany replaces what
 it held

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b9c0d8a..29a0807 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9831,6 +9831,7 @@ public:
     }
     else
     {
+      to_type.data.clear();
       to_type.data.push_back(T());
       context.error = TypeHandler<T>::to(to_type.data.back(), context);
     }
-- 
2.43.0


From 12d8d832d51bfdead5d7517e8e29cbd4b4cf4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 23/61] fix: parsing a scalar to tokens replaces what they
 held, and an end is no value

---
 include/json_struct/json_struct.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 29a0807..967102c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9341,13 +9341,12 @@ struct TypeHandler<std::vector<Token, A>>
 public:
   static inline Error to(std::vector<Token, A> &to_type, ParseContext &context)
   {
-    if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
-    {
-      to_type.push_back(context.token);
-      return context.error;
-    }
+    if (context.token.value_type == JS::Type::ArrayEnd || context.token.value_type == JS::Type::ObjectEnd)
+      return Error::ExpectedDataToken;
     to_type.clear();
     to_type.push_back(context.token);
+    if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
+      return context.error;
 
     size_t level = 1;
     Error error = Error::NoError;
-- 
2.43.0


From ba8142c61c0e3f3d9990ee4ef47903334afb218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 24/61] fix: tokens are written under the name of their member

---
 include/json_struct/json_struct.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 967102c..e4c13fb 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9365,10 +9365,18 @@ public:
 
   static inline void from(const std::vector<Token, A> &from_type, Token &token, Serializer &serializer)
   {
+    bool first = true;
     for (auto &t : from_type)
     {
-      token = t;
-      serializer.write(token);
+      Token to_write = t;
+      if (first)
+      {
+        // the value bears the name of the place it is written to
+        to_write.name = token.name;
+        to_write.name_type = token.name_type;
+        first = false;
+      }
+      serializer.write(to_write);
     }
   }
 };
@@ -10268,6 +10276,7 @@ struct TypeHandler<Map>
 
     Token first_token = from_type.tokens.data.front();
     first_token.name = token.name;
+    first_token.name_type = token.name_type;
     serializer.write(first_token);
     for (int i = 1; i < int(from_type.tokens.data.size()); i++)
     {
-- 
2.43.0


From d1f88c8630d78c76bd7ee68183946a82af1be129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:25 +0000
Subject: [PATCH 25/61] fix: raw captures replace what they held, stop at
 errors and work on played back tokens

---
 include/json_struct/json_struct.h | 108 ++++++++++++------------------
 1 file changed, 44 insertions(+), 64 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e4c13fb..b03d85b 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1408,6 +1408,10 @@ public:
   {
     return error_context;
   }
+  bool isPlayingBackTokens() const
+  {
+    return parsed_data_vector != nullptr;
+  }
 
 private:
   enum class InTokenState : unsigned char
@@ -9396,6 +9400,42 @@ public:
   }
 };
 
+namespace Internal
+{
+// Copies the text of the object or array that starts at the current token and moves to its end.
+inline Error captureScope(std::string &to_buffer, ParseContext &context)
+{
+  to_buffer.clear();
+  if (context.tokenizer.isPlayingBackTokens())
+  {
+    // the tokens may come from different texts
+    JsonTokens tokens;
+    Error error = TypeHandler<JsonTokens>::to(tokens, context);
+    if (error == Error::NoError)
+      to_buffer = serializeStruct(tokens, SerializerOptions(SerializerOptions::Compact));
+    return error;
+  }
+  const Type openType = context.token.value_type;
+  const Type closeType = openType == Type::ObjectStart ? Type::ObjectEnd : Type::ArrayEnd;
+  context.tokenizer.copyFromValue(context.token, to_buffer);
+
+  size_t level = 1;
+  Error error = Error::NoError;
+  while (error == JS::Error::NoError && level)
+  {
+    error = context.nextToken();
+    if (context.token.value_type == openType)
+      level++;
+    else if (context.token.value_type == closeType)
+      level--;
+  }
+
+  if (error == JS::Error::NoError)
+    context.tokenizer.copyIncludingValue(context.token, to_buffer);
+  return error;
+}
+} // namespace Internal
+
 /// \private
 template <>
 struct TypeHandler<JsonArrayRef>
@@ -9440,23 +9480,7 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
-    context.tokenizer.copyFromValue(context.token, to_type.data);
-
-    size_t level = 1;
-    Error error = Error::NoError;
-    while (error == JS::Error::NoError && level)
-    {
-      error = context.nextToken();
-      if (context.token.value_type == Type::ArrayStart)
-        level++;
-      else if (context.token.value_type == Type::ArrayEnd)
-        level--;
-    }
-
-    if (error == JS::Error::NoError)
-      context.tokenizer.copyIncludingValue(context.token, to_type.data);
-
-    return error;
+    return Internal::captureScope(to_type.data, context);
   }
 
   static inline void from(const JsonArray &from_type, Token &token, Serializer &serializer)
@@ -9519,22 +9543,7 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
-    context.tokenizer.copyFromValue(context.token, to_type.data);
-
-    size_t level = 1;
-    Error error = Error::NoError;
-    while (error == JS::Error::NoError && level)
-    {
-      error = context.nextToken();
-      if (context.token.value_type == Type::ObjectStart)
-        level++;
-      else if (context.token.value_type == Type::ObjectEnd)
-        level--;
-    }
-
-    context.tokenizer.copyIncludingValue(context.token, to_type.data);
-
-    return error;
+    return Internal::captureScope(to_type.data, context);
   }
 
   static inline void from(const JsonObject &from_type, Token &token, Serializer &serializer)
@@ -9608,39 +9617,10 @@ struct TypeHandler<JsonObjectOrArray>
 {
   static inline Error to(JsonObjectOrArray &to_type, ParseContext &context)
   {
-    JS::Type openType;
-    JS::Type closeType;
-    if (context.token.value_type == JS::Type::ObjectStart)
-    {
-      openType = JS::Type::ObjectStart;
-      closeType = JS::Type::ObjectEnd;
-    }
-    else if (context.token.value_type == JS::Type::ArrayStart)
-    {
-      openType = JS::Type::ArrayStart;
-      closeType = JS::Type::ArrayEnd;
-    }
-    else
-    {
+    if (context.token.value_type != JS::Type::ObjectStart && context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedObjectStart;
-    }
 
-    context.tokenizer.copyFromValue(context.token, to_type.data);
-
-    size_t level = 1;
-    Error error = Error::NoError;
-    while (error == JS::Error::NoError && level)
-    {
-      error = context.nextToken();
-      if (context.token.value_type == openType)
-        level++;
-      else if (context.token.value_type == closeType)
-        level--;
-    }
-
-    context.tokenizer.copyIncludingValue(context.token, to_type.data);
-
-    return error;
+    return Internal::captureScope(to_type.data, context);
   }
 
   static inline void from(const JsonObjectOrArray &from_type, Token &token, Serializer &serializer)
-- 
2.43.0


From 7a68d6ec65b89ac362977460e890eefb1384f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:25 +0000
Subject: [PATCH 26/61] fix: a string takes the whole of an object or array,
 not only its opening bracket

---
 include/json_struct/json_struct.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b03d85b..65c0a04 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6239,12 +6239,22 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
   return DataRef(data.data(), data.size());
 }
 } // namespace Internal
+namespace Internal
+{
+// Copies the text of the object or array that starts at the current token and moves to its end.
+inline Error captureScope(std::string &to_buffer, ParseContext &context);
+} // namespace Internal
+
 /// \private
 template <>
 struct TypeHandler<std::string>
 {
   static inline Error to(std::string &to_type, ParseContext &context)
   {
+    if (context.token.value_type == Type::ObjectEnd || context.token.value_type == Type::ArrayEnd)
+      return Error::IllegalDataValue;
+    if (context.token.value_type == Type::ObjectStart || context.token.value_type == Type::ArrayStart)
+      return Internal::captureScope(to_type, context);
     to_type.clear();
     Internal::handle_json_escapes_in(context.token.value, to_type);
     return Error::NoError;
@@ -9402,7 +9412,6 @@ public:
 
 namespace Internal
 {
-// Copies the text of the object or array that starts at the current token and moves to its end.
 inline Error captureScope(std::string &to_buffer, ParseContext &context)
 {
   to_buffer.clear();
-- 
2.43.0


From 1cabc589cc648fc3c86374d068a3b555ef8cbd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:25 +0000
Subject: [PATCH 27/61] fix: a failed capture by reference refers to nothing

---
 include/json_struct/json_struct.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 65c0a04..3d24b39 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9467,7 +9467,9 @@ struct TypeHandler<JsonArrayRef>
         level--;
     }
 
-    to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
+    to_type.ref.size = error == JS::Error::NoError
+                         ? size_t(context.token.value.data + context.token.value.size - to_type.ref.data)
+                         : 0;
 
     return error;
   }
@@ -9531,7 +9533,9 @@ struct TypeHandler<JsonObjectRef>
         level--;
     }
 
-    to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
+    to_type.ref.size = error == JS::Error::NoError
+                         ? size_t(context.token.value.data + context.token.value.size - to_type.ref.data)
+                         : 0;
     return error;
   }
 
@@ -9608,7 +9612,9 @@ struct TypeHandler<JsonObjectOrArrayRef>
         level--;
     }
 
-    to_type.ref.size = size_t(context.token.value.data + context.token.value.size - to_type.ref.data);
+    to_type.ref.size = error == JS::Error::NoError
+                         ? size_t(context.token.value.data + context.token.value.size - to_type.ref.data)
+                         : 0;
     return error;
   }
 
-- 
2.43.0


From 64b37d50c1d2b9cd3a8b6cdc27b2b55d0e3322d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 28/61] fix: do not read past the end of the tokens to play
 back

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3d24b39..177218e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1743,6 +1743,12 @@ inline Error Tokenizer::nextToken(Token &next_token)
   }
   if (parsed_data_vector)
   {
+    if (JSON_STRUCT_UNLIKELY(cursor_index >= parsed_data_vector->size()))
+    {
+      cursor_index = 0;
+      parsed_data_vector = nullptr;
+      return Error::NeedMoreData;
+    }
     next_token = (*parsed_data_vector)[cursor_index];
     cursor_index++;
     if (cursor_index == parsed_data_vector->size())
-- 
2.43.0


From 0ca312a28ca7368f9d56d4db1c8efd2b6656e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 29/61] fix: count a token in every open scope

---
 include/json_struct/json_struct.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 177218e..6bd8c7f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1353,7 +1353,7 @@ namespace Internal
 struct ScopeCounter
 {
   JS::Type type;
-  uint16_t depth;
+  size_t depth;
   inline void handleType(JS::Type in_type)
   {
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
@@ -1756,8 +1756,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       cursor_index = 0;
       parsed_data_vector = nullptr;
     }
-    if (scope_counter.size())
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
     return Error::NoError;
   }
   if (JSON_STRUCT_UNLIKELY(data_list.empty()))
@@ -1816,8 +1816,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       }
       container_stack.pop_back();
     }
-    if (JSON_STRUCT_LIKELY(scope_counter.size()))
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
   }
   return error;
 }
-- 
2.43.0


From 63a50b9aee86790536f51fe69a060c50ff8c09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 30/61] fix: clearing an error context clears its message

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6bd8c7f..11e0369 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1342,6 +1342,7 @@ public:
     line = 0;
     character = 0;
     error = Error::NoError;
+    custom_message.clear();
     lines.clear();
   }
 };
-- 
2.43.0


From d0a46b5625ab91e744987ff9e45d3654e5dae435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 31/61] fix: stop calling functions when the document is
 malformed inside an argument

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 11e0369..354eb97 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5618,7 +5618,12 @@ inline Error CallFunctionContext::callFunctions(T &container)
       parse_context.error = error;
     }
     Internal::add_error(execution_list.back(), parse_context);
-    parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    Error scope_error = parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    if (scope_error != Error::NoError)
+    {
+      parse_context.error = scope_error;
+      return scope_error;
+    }
     parse_context.tokenizer.popScope();
     if (error == Error::MissingFunction && allow_missing)
       error = Error::NoError;
-- 
2.43.0


From a429cd76e150a28845b5d41f0f10c96d7dd4eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 32/61] fix: a failed raw capture does not leave a reference to
 its target behind

---
 include/json_struct/json_struct.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 354eb97..d2ef426 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1397,6 +1397,7 @@ public:
 
   void copyFromValue(const Token &token, std::string &to_buffer);
   void copyIncludingValue(const Token &token, std::string &to_buffer);
+  void abortCopy(std::string &to_buffer);
 
   void pushScope(JS::Type type);
   void popScope();
@@ -1859,6 +1860,14 @@ inline void Tokenizer::copyFromValue(const Token &token, std::string &to_buffer)
   }
 }
 
+inline void Tokenizer::abortCopy(std::string &to_buffer)
+{
+  copy_buffers.erase(
+    std::remove_if(copy_buffers.begin(), copy_buffers.end(),
+                   [&to_buffer](const std::pair<size_t, std::string *> &pair) { return &to_buffer == pair.second; }),
+    copy_buffers.end());
+}
+
 inline void Tokenizer::copyIncludingValue(const Token &, std::string &to_buffer)
 {
   auto it =
@@ -9453,6 +9462,8 @@ inline Error captureScope(std::string &to_buffer, ParseContext &context)
 
   if (error == JS::Error::NoError)
     context.tokenizer.copyIncludingValue(context.token, to_buffer);
+  else
+    context.tokenizer.abortCopy(to_buffer);
   return error;
 }
 } // namespace Internal
-- 
2.43.0


From 290eede0a852fc47aebf46551d27a6e57becdd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 33/61] fix: the iterators of a Map range over its elements
 only

---
 include/json_struct/json_struct.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d2ef426..5dd0d51 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10061,6 +10061,8 @@ struct Map
 
   inline It begin() const
   {
+    if (tokens.data.size() < 2)
+      return end();
     It b(*this);
     b.index = 1;
     b.next_meta = 1;
@@ -10072,7 +10074,8 @@ struct Map
   inline It end() const
   {
     It e(*this);
-    e.index = uint32_t(tokens.data.size());
+    // the token that closes the object is no element
+    e.index = tokens.data.empty() ? 0 : uint32_t(tokens.data.size() - 1);
     e.next_meta = 0;
     e.next_complex = 0;
     return e;
-- 
2.43.0


From 172abbc7fcc98c047de41502399f232f17db13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 34/61] fix: a Map escapes the names it is given and finds them
 again

---
 include/json_struct/json_struct.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5dd0d51..93f8c82 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10083,8 +10083,13 @@ struct Map
 
   inline It find(const std::string &name) const
   {
-    return std::find_if(begin(), end(),
-                        [&name](const Token &token) { return Internal::compareDataRefWithString(token.name, name); });
+    return std::find_if(begin(), end(), [&name](const Token &token) {
+      if (!token.name.size || !memchr(token.name.data, '\\', token.name.size))
+        return token.name.size == name.size() && std::equal(name.begin(), name.end(), token.name.data);
+      std::string decoded;
+      Internal::handle_json_escapes_in(token.name, decoded);
+      return decoded == name;
+    });
   }
 
   template <typename T>
@@ -10227,7 +10232,8 @@ struct Map
     token.value = DataRef(objectStart);
     serializeContext.serializer.write(token);
 
-    token.name = DataRef(name);
+    std::string name_buffer;
+    token.name = Internal::handle_json_escapes_out(name, name_buffer);
     token.name_type = Type::String;
     JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
-- 
2.43.0


From ed84254e322d59888c1928ae3722c837ec4d9d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 35/61] fix: a failed cast of a Map is reported in the parse
 context

---
 include/json_struct/json_struct.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 93f8c82..ccc6a28 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10096,8 +10096,9 @@ struct Map
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -10105,8 +10106,9 @@ struct Map
   {
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From f940c9634a1849bed56407b1c87cad63262e0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 36/61] fix: replacing an element of a Map keeps the positions
 of the others

---
 include/json_struct/json_struct.h | 67 ++++++-------------------------
 1 file changed, 12 insertions(+), 55 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ccc6a28..23786a7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10184,44 +10184,20 @@ struct Map
     auto it = find(name);
     if (it != end())
     {
-      meta[0].children--;
-      int tokens_removed = 0;
-      if (it.index == it.next_complex)
+      const size_t tokens_removed = it.index == it.next_complex ? meta[it.next_meta].size : 1;
+      auto start_token = tokens.data.begin() + it.index;
+      tokens.data.erase(start_token, start_token + tokens_removed);
+      int index_to_remove = -1;
+      for (int i = 0; i < int(json_data.size()); i++)
       {
-        auto theMeta = meta[it.next_meta];
-        tokens_removed = theMeta.size;
-        meta[0].complex_children--;
-        meta[0].size -= theMeta.size;
-        meta[0].skip -= theMeta.skip;
-        auto start_token = tokens.data.begin() + it.index;
-        tokens.data.erase(start_token, start_token + theMeta.size);
-        int to_adjust_index = it.next_meta;
-        auto start_meta = meta.begin() + it.next_meta;
-        meta.erase(start_meta, start_meta + theMeta.skip);
-        for (int i = to_adjust_index; i < int(meta.size()); i++)
-        {
-          meta[i].position -= theMeta.size;
-        }
-      }
-      else
-      {
-        meta[0].size--;
-        tokens.data.erase(tokens.data.begin() + it.index);
-        tokens_removed = 1;
+        if (uint32_t(json_data[i].first) == it.index)
+          index_to_remove = i;
+        else if (uint32_t(json_data[i].first) > it.index)
+          json_data[i].first -= int(tokens_removed);
       }
+      if (index_to_remove >= 0)
       {
-        int index_to_remove = -1;
-        for (int i = 0; i < int(json_data.size()); i++)
-        {
-          if (uint32_t(json_data[i].first) == it.index)
-            index_to_remove = i;
-          else if (uint32_t(json_data[i].first) > it.index)
-            json_data[i].first -= tokens_removed;
-        }
-        if (index_to_remove >= 0)
-        {
-          json_data.erase(json_data.begin() + index_to_remove);
-        }
+        json_data.erase(json_data.begin() + index_to_remove);
       }
     }
     static const char objectStart[] = "{";
@@ -10247,29 +10223,10 @@ struct Map
     serializeContext.flush();
     JS::JsonTokens new_tokens;
     JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
-    auto new_meta = metaForTokens(new_tokens);
 
     json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
-    int old_tokens_size = int(tokens.data.size());
     tokens.data.insert(tokens.data.end() - 1, new_tokens.data.begin() + 1, new_tokens.data.end() - 1);
-    meta[0].children++;
-    if (new_meta[0].complex_children)
-    {
-      meta[0].complex_children++;
-      meta[0].size += new_meta[1].size;
-      meta[0].skip += new_meta[1].skip;
-      int old_meta_size = int(meta.size());
-      meta.insert(meta.end(), new_meta.begin() + 1, new_meta.end());
-      for (int new_meta_i = old_meta_size; new_meta_i < int(meta.size()); new_meta_i++)
-      {
-        meta[new_meta_i].position +=
-          old_tokens_size - 1 - 1; // position contains an extra and old_tokens_size has another extra
-      }
-    }
-    else
-    {
-      meta[0].size++;
-    }
+    meta = metaForTokens(tokens);
 
     return JS::Error::NoError;
   }
-- 
2.43.0


From 80866ccc8179906d5765e4a1654dd6ad147a74ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 37/61] fix: setting a property of a Map that holds no object
 is an error

---
 include/json_struct/json_struct.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 23786a7..3ace46a 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10166,7 +10166,11 @@ struct Map
   template <typename T>
   JS::Error setValue(const std::string &name, JS::ParseContext &parseContext, const T &value)
   {
-    (void)parseContext;
+    if (!tokens.data.empty() && tokens.data.front().value_type != JS::Type::ObjectStart)
+    {
+      parseContext.error = JS::Error::ExpectedObjectStart;
+      return parseContext.error;
+    }
     if (tokens.data.empty())
     {
       tokens.data.reserve(10);
-- 
2.43.0


From 74fd0731d64d57bae194c5da6931ba76e929cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:46 +0000
Subject: [PATCH 38/61] fix: assigning a part of a Map to itself does not read
 what it removed

---
 include/json_struct/json_struct.h | 39 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3ace46a..7139cb1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10185,25 +10185,6 @@ struct Map
       meta = JS::metaForTokens(tokens);
     }
 
-    auto it = find(name);
-    if (it != end())
-    {
-      const size_t tokens_removed = it.index == it.next_complex ? meta[it.next_meta].size : 1;
-      auto start_token = tokens.data.begin() + it.index;
-      tokens.data.erase(start_token, start_token + tokens_removed);
-      int index_to_remove = -1;
-      for (int i = 0; i < int(json_data.size()); i++)
-      {
-        if (uint32_t(json_data[i].first) == it.index)
-          index_to_remove = i;
-        else if (uint32_t(json_data[i].first) > it.index)
-          json_data[i].first -= int(tokens_removed);
-      }
-      if (index_to_remove >= 0)
-      {
-        json_data.erase(json_data.begin() + index_to_remove);
-      }
-    }
     static const char objectStart[] = "{";
     static const char objectEnd[] = "}";
     std::string out;
@@ -10225,6 +10206,26 @@ struct Map
     serializeContext.serializer.write(token);
 
     serializeContext.flush();
+    // the value may refer to what it replaces, so it is written first
+    auto it = find(name);
+    if (it != end())
+    {
+      const size_t tokens_removed = it.index == it.next_complex ? meta[it.next_meta].size : 1;
+      auto start_token = tokens.data.begin() + it.index;
+      tokens.data.erase(start_token, start_token + tokens_removed);
+      int index_to_remove = -1;
+      for (int i = 0; i < int(json_data.size()); i++)
+      {
+        if (uint32_t(json_data[i].first) == it.index)
+          index_to_remove = i;
+        else if (uint32_t(json_data[i].first) > it.index)
+          json_data[i].first -= int(tokens_removed);
+      }
+      if (index_to_remove >= 0)
+      {
+        json_data.erase(json_data.begin() + index_to_remove);
+      }
+    }
     JS::JsonTokens new_tokens;
     JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
 
-- 
2.43.0


From 84f7463d29884e78433c46ffabe1b35ceb7e2dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:46 +0000
Subject: [PATCH 39/61] fix: a Map that failed to parse is empty

---
 include/json_struct/json_struct.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7139cb1..2fc22c6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10247,6 +10247,11 @@ struct TypeHandler<Map>
     {
       to_type.meta = metaForTokens(to_type.tokens);
     }
+    else
+    {
+      to_type.tokens.data.clear();
+      to_type.meta.clear();
+    }
 
     return error;
   }
-- 
2.43.0


From 3145ed841e0410a33948969b42ba3686fcc57b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:03 +0000
Subject: [PATCH 40/61] fix: write the name of a property that has an empty
 name

---
 include/json_struct/json_struct.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2fc22c6..3bb7672 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1606,6 +1606,7 @@ private:
   bool m_first;
   bool m_token_start;
   SerializerOptions m_option;
+  std::vector<bool> m_in_object; // for each open container, whether it is an object
 };
 
 // IMPLEMENTATION
@@ -3384,6 +3385,8 @@ inline bool Serializer::write(const Token &in_token)
       return false;
     }
     m_option.setDepth(m_option.depth() - 1);
+    if (m_in_object.size())
+      m_in_object.pop_back();
   }
 
   bool shortcut_front = false;
@@ -3463,9 +3466,11 @@ inline bool Serializer::write(const Token &in_token)
       if (!write(m_option.prefix()))
         return false;
   }
-  if (token.name.size)
+  // the name of a property may be empty
+  const bool empty_name = !token.name.size && !isEnd && m_in_object.size() && m_in_object.back();
+  if (token.name.size || empty_name)
   {
-    if (!write(token.name_type, token.name))
+    if (!write(empty_name ? Type::String : token.name_type, token.name))
       return false;
 
     if (m_option.style() == SerializerOptions::Pretty)
@@ -3487,6 +3492,7 @@ inline bool Serializer::write(const Token &in_token)
   if (m_token_start)
   {
     m_option.setDepth(m_option.depth() + 1);
+    m_in_object.push_back(token.value_type == Type::ObjectStart);
   }
   return true;
 }
-- 
2.43.0


From 3a2a8441904ed3e87ba8f8bb84162f907e75eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:03 +0000
Subject: [PATCH 41/61] fix: what is serialized after a flush is kept

---
 include/json_struct/json_struct.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3bb7672..edc18cc 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4791,8 +4791,9 @@ struct SerializerContext
     serializer.setBuffer(&json_out[0], json_out.size());
     serializer.setRequestBufferCallback([this](Serializer &serializer_p) {
       size_t end = this->json_out.size();
-      this->json_out.resize(end * 2);
-      serializer_p.setBuffer(&(this->json_out[0]) + end, end);
+      size_t more = end ? end : 4096;
+      this->json_out.resize(end + more);
+      serializer_p.setBuffer(&(this->json_out[0]) + end, more);
       this->last_pos = end;
     });
   }
@@ -4813,6 +4814,9 @@ struct SerializerContext
   void flush()
   {
     json_out.resize(last_pos + serializer.currentBuffer().used);
+    // what is written from here on needs new space
+    last_pos = json_out.size();
+    serializer.setBuffer(nullptr, 0);
   }
 
   Serializer serializer;
-- 
2.43.0


From fc0d01860fc607ac1427b0bb520750031585348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 42/61] fix: a copy of a Map outlives the Map it was copied
 from

---
 include/json_struct/json_struct.h | 37 +++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index edc18cc..984d457 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9997,6 +9997,16 @@ inline bool compareDataRefWithString(const DataRef &a, const std::string &b)
   return a.size == b.size() && memcmp(a.data, b.data(), a.size) == 0;
 }
 } // namespace Internal
+namespace Internal
+{
+static inline void moveDataRef(DataRef &ref, const std::string &from, const std::string &to)
+{
+  const std::less<const char *> less{};
+  if (!less(ref.data, from.data()) && less(ref.data, from.data() + from.size()))
+    ref.data = to.data() + (ref.data - from.data());
+}
+} // namespace Internal
+
 struct Map
 {
   struct It
@@ -10069,6 +10079,33 @@ struct Map
   std::vector<JsonMeta> meta;
   std::vector<std::pair<int, std::string>> json_data;
 
+  Map() = default;
+  Map(Map &&other) = default;
+  Map(const Map &other)
+    : tokens(other.tokens)
+    , meta(other.meta)
+    , json_data(other.json_data)
+  {
+    // the tokens of the copy refer to the data of the copy
+    for (size_t i = 0; i < json_data.size(); i++)
+    {
+      const std::string &from = other.json_data[i].second;
+      const std::string &to = json_data[i].second;
+      for (auto &token : tokens.data)
+      {
+        Internal::moveDataRef(token.name, from, to);
+        Internal::moveDataRef(token.value, from, to);
+      }
+    }
+  }
+  Map &operator=(Map other)
+  {
+    std::swap(tokens, other.tokens);
+    std::swap(meta, other.meta);
+    std::swap(json_data, other.json_data);
+    return *this;
+  }
+
   inline It begin() const
   {
     if (tokens.data.size() < 2)
-- 
2.43.0


From e0bf57975dc1621e3b8583bb3854303c0c665b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 43/61] fix: a fixed size array reports the error the tokenizer
 found

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 984d457..f437713 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9908,6 +9908,8 @@ public:
       context.nextToken();
     }
 
+    if (context.error != JS::Error::NoError)
+      return context.error;
     if (context.token.value_type != Type::ArrayEnd)
       return JS::Error::ExpectedArrayEnd;
     return context.error;
@@ -10361,6 +10363,8 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       context.nextToken();
     }
 
+    if (context.error != JS::Error::NoError)
+      return context.error;
     if (context.token.value_type != Type::ArrayEnd)
       return JS::Error::ExpectedArrayEnd;
     return context.error;
@@ -10497,6 +10501,8 @@ public:
       context.nextToken();
     }
 
+    if (context.error != JS::Error::NoError)
+      return context.error;
     if (context.token.value_type != Type::ArrayEnd)
       return JS::Error::ExpectedArrayEnd;
     return context.error;
-- 
2.43.0


From c32a51ac0ea599699865b2f47ba804706629a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 44/61] fix: reformatting a document that is cut off is an
 error

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f437713..b984b24 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3063,6 +3063,7 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
   Tokenizer tokenizer;
   tokenizer.addData(data, size);
   Error error = Error::NoError;
+  size_t open_containers = 0;
 
   Serializer serializer;
   serializer.setOptions(options);
@@ -3082,10 +3083,14 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
     error = tokenizer.nextToken(token);
     if (error != Error::NoError)
       break;
+    if (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart)
+      open_containers++;
+    else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+      open_containers--;
     serializer.write(token);
   }
   out.resize(last_pos + serializer.currentBuffer().used);
-  if (error == Error::NeedMoreData)
+  if (error == Error::NeedMoreData && !open_containers)
     return Error::NoError;
 
   return error;
-- 
2.43.0


From 03aba8c5295822f6adcbe471b7ca4c6602b970a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:56 +0000
Subject: [PATCH 45/61] fix: an error report quotes the line it points at and
 marks the right column

---
 include/json_struct/json_struct.h | 124 ++++++++++++------------------
 1 file changed, 48 insertions(+), 76 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b984b24..2e51670 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2974,85 +2974,57 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
 {
   error_context.error = error;
   error_context.custom_message = custom_message;
+  error_context.lines.clear();
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
-  const DataRef json_data =
-    parsed_data_vector && parsed_data_vector->size()
-      ? DataRef(parsed_data_vector->front().value.data,
-                size_t(parsed_data_vector->back().value.data - parsed_data_vector->front().value.data))
-      : data_list.front();
-  int64_t real_cursor_index = parsed_data_vector && parsed_data_vector->size()
-                                ? int64_t(parsed_data_vector->at(cursor_index).value.data - json_data.data)
-                                : int64_t(cursor_index);
-  const int64_t stop_back = real_cursor_index - std::min(int64_t(real_cursor_index), int64_t(line_range_context));
-  const int64_t stop_forward = std::min(real_cursor_index + int64_t(line_range_context), int64_t(json_data.size));
-  std::vector<Internal::Lines> lines;
-  lines.push_back({0, size_t(real_cursor_index)});
-  assert(real_cursor_index <= int64_t(json_data.size));
-  int64_t lines_back = 0;
-  int64_t lines_forward = 0;
-  int64_t cursor_back;
-  int64_t cursor_forward;
-  for (cursor_back = real_cursor_index - 1; cursor_back > stop_back; cursor_back--)
-  {
-    if (*(json_data.data + cursor_back) == '\n')
-    {
-      lines.front().start = size_t(cursor_back + 1);
-      lines_back++;
-      if (lines_back == 1)
-        error_context.character = size_t(real_cursor_index - cursor_back);
-      if (lines_back == int64_t(line_context))
-      {
-        lines_back--;
-        break;
-      }
-
-      lines.insert(lines.begin(), {0, size_t(cursor_back)});
-    }
-  }
-  if (lines.front().start == 0 && cursor_back > 0)
-    lines.front().start = size_t(cursor_back);
-  bool add_new_line = false;
-  for (cursor_forward = real_cursor_index; cursor_forward < stop_forward; cursor_forward++)
-  {
-    if (add_new_line)
-    {
-      lines.push_back({size_t(cursor_forward), 0});
-      add_new_line = false;
-    }
-    if (*(json_data.data + cursor_forward) == '\n')
-    {
-      lines.back().end = size_t(cursor_forward);
-      lines_forward++;
-      if (lines_forward == int64_t(line_context))
-        break;
-      add_new_line = true;
-    }
-  }
-  if (lines.back().end == 0)
-    lines.back().end = size_t(cursor_forward - 1);
-
-  if (lines.size() > 1)
-  {
-    error_context.lines.reserve(lines.size());
-    for (auto &line : lines)
-    {
-      error_context.lines.push_back(std::string(json_data.data + line.start, line.end - line.start));
-    }
-    error_context.line = size_t(lines_back);
-  }
-  else
-  {
-    error_context.line = 0;
-
-    int64_t left = real_cursor_index > int64_t(range_context) ? real_cursor_index - int64_t(range_context) : 0;
-    int64_t right = real_cursor_index + int64_t(range_context) > int64_t(json_data.size)
-                      ? int64_t(json_data.size)
-                      : real_cursor_index + int64_t(range_context);
-    error_context.character = size_t(real_cursor_index - left);
-    error_context.lines.push_back(std::string(json_data.data + left, size_t(right - left)));
-  }
+  // tokens that are played back may come from different texts, so only the last one that was read is shown
+  const DataRef json_data = parsed_data_vector && parsed_data_vector->size()
+                              ? (*parsed_data_vector)[cursor_index ? cursor_index - 1 : 0].value
+                              : data_list.front();
+  const char *const data = json_data.data;
+  const size_t cursor = parsed_data_vector && parsed_data_vector->size() ? 0 : cursor_index;
+  assert(cursor <= json_data.size);
+  size_t size = json_data.size;
+  if (cursor < size && data[size - 1] == '\0')
+    size--;
+  const size_t stop_back = cursor - std::min(cursor, line_range_context);
+  const size_t stop_forward = cursor + std::min(size - cursor, line_range_context);
+
+  Internal::Lines current = {cursor, cursor};
+  while (current.start > stop_back && data[current.start - 1] != '\n')
+    current.start--;
+  while (current.end < stop_forward && data[current.end] != '\n')
+    current.end++;
+
+  std::vector<Internal::Lines> lines(1, current);
+  size_t lines_back = 0;
+  while (lines_back + 1 < line_context && lines.front().start > stop_back)
+  {
+    Internal::Lines line = {lines.front().start - 1, lines.front().start - 1};
+    while (line.start > stop_back && data[line.start - 1] != '\n')
+      line.start--;
+    lines.insert(lines.begin(), line);
+    lines_back++;
+  }
+  for (size_t lines_forward = 1; lines_forward < line_context && lines.back().end + 1 < stop_forward; lines_forward++)
+  {
+    Internal::Lines line = {lines.back().end + 1, lines.back().end + 1};
+    while (line.end < stop_forward && data[line.end] != '\n')
+      line.end++;
+    lines.push_back(line);
+  }
+
+  if (lines.size() == 1)
+  {
+    lines.front().start = cursor - std::min(cursor - current.start, range_context);
+    lines.front().end = cursor + std::min(current.end - cursor, range_context);
+  }
+  error_context.line = lines_back;
+  error_context.character = cursor - lines[lines_back].start;
+  error_context.lines.reserve(lines.size());
+  for (auto &line : lines)
+    error_context.lines.push_back(std::string(data + line.start, line.end - line.start));
   return error;
 }
 
-- 
2.43.0


From ecee67ffc5c262db9ea42122122a640a6a5a3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:26 +0000
Subject: [PATCH 46/61] fix: an error is reported at the character that caused
 it, not before the white space in front of it

---
 include/json_struct/json_struct.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2e51670..467b4a0 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2392,7 +2392,10 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
     if (JSON_STRUCT_LIKELY(c == ':'))
     {
       if (JSON_STRUCT_UNLIKELY(container_type != Type::ObjectStart))
+      {
+        cursor_index = end;
         return Error::ExpectedDelimiter;
+      }
       token_state = InTokenState::FindingData;
       *chars_ahead = end + 1 - cursor_index;
       return Error::NoError;
@@ -2400,7 +2403,10 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
     else if (JSON_STRUCT_LIKELY(c == ',') || JSON_STRUCT_UNLIKELY(allow_new_lines && c == '\n'))
     {
       if (JSON_STRUCT_UNLIKELY(container_type != Type::ArrayStart))
+      {
+        cursor_index = end;
         return Error::ExpectedDelimiter;
+      }
       token_state = InTokenState::FindingName;
       *chars_ahead = end + 1 - cursor_index;
       return Error::NoError;
@@ -2408,13 +2414,17 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
     else if (JSON_STRUCT_LIKELY(c == ']'))
     {
       if (JSON_STRUCT_UNLIKELY(container_type != Type::ArrayStart))
+      {
+        cursor_index = end;
         return Error::ExpectedDelimiter;
+      }
       token_state = InTokenState::FindingName;
       *chars_ahead = end - cursor_index;
       return Error::NoError;
     }
     else if (JSON_STRUCT_UNLIKELY(!(Internal::lookup()[(unsigned char)c] & Internal::WhiteSpaceOrNull)))
     {
+      cursor_index = end;
       return Error::ExpectedDelimiter;
     }
   }
@@ -2498,7 +2508,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
     }
     else
     {
-      *chars_ahead = end + 1 - cursor_index;
+      cursor_index = end;
       return Error::InvalidToken;
     }
   }
@@ -2638,6 +2648,8 @@ inline Error Tokenizer::populateFromDataRef(DataRef &data, Type &type, const Dat
     if (error != Error::NoError)
     {
       type = Type::Error;
+      if (error != Error::NeedMoreData)
+        cursor_index += diff;
       return error;
     }
 
-- 
2.43.0


From 0d95d6d4bc768c6a12a5099d69c2a3a8936a61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 47/61] fix: diff numbers that are out of the range of a double

---
 include/json_struct/json_struct_diff.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index f580e16..216d852 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -437,6 +437,8 @@ namespace Internal
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
         {
+            if (d1 == d2) // equal infinities have no difference
+                return true;
             double diff = d2 - d1;
             return diff > 0 ? (diff <= epsilon) : (-diff <= epsilon);
         }
@@ -451,8 +453,16 @@ namespace Internal
 
         inline void diffNumberValues(const Token &baseToken, const Token &diffToken, DiffTokens &diff, const size_t diffPos, const DiffOptions &options)
         {
-            double baseValue = std::stod(std::string(baseToken.value.data, baseToken.value.size));
-            double diffValue = std::stod(std::string(diffToken.value.data, diffToken.value.size));
+            double baseValue = 0;
+            double diffValue = 0;
+            ParseContext dummyContext;
+
+            dummyContext.token = baseToken;
+            Error baseError = TypeHandler<double>::to(baseValue, dummyContext);
+            dummyContext.token = diffToken;
+            Error diffError = TypeHandler<double>::to(diffValue, dummyContext);
+            if (baseError != Error::NoError || diffError != Error::NoError)
+                return diffStringValues(baseToken, diffToken, diff, diffPos);
 
             if (options.flags & DiffFlags::FuzzyFloatComparison)
             {
-- 
2.43.0


From 7bc27c62c1408f566700061c3dde9229ab6d084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 48/61] fix: diff marks all of the new items of an array when
 the first is an array

---
 include/json_struct/json_struct_diff.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 216d852..c78cf48 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -697,15 +697,10 @@ namespace Internal
                     // New items in array.
                     if (baseToken.value_type == Type::ArrayEnd)
                     {
-                        int arrayEndCount = 0;
-                        while (arrayEndCount >= 0)
+                        while (diff.tokens.data[dPos].value_type != Type::ArrayEnd)
                         {
-                            diff.set(dPos++, DiffType::NewArrayItem);
-                            const Token& dToken = diff.tokens.data[dPos];
-                            if (dToken.value_type == Type::ArrayStart)
-                                arrayEndCount++;
-                            else if (dToken.value_type == Type::ArrayEnd)
-                                arrayEndCount--;
+                            setStateForEntireToken(diff, dPos, DiffType::NewArrayItem);
+                            diff.skip(&dPos);
                         }
                         arrayDiffDone = true;
                     }
-- 
2.43.0


From 6dee1f3cdf6bdcbb05ccb24c72602b0ba686f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 49/61] fix: recomputing a diff forgets the missing array items
 of the last one

---
 include/json_struct/json_struct_diff.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index c78cf48..fa759cd 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -118,6 +118,7 @@ struct DiffTokens
     void invalidate()
     {
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         error = DiffError::NoError;
         diff_count = 0;
@@ -128,6 +129,7 @@ struct DiffTokens
     {
         tokens.data.clear();
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         meta.clear();
         error = DiffError::NoError;
-- 
2.43.0


From b35783af1cce7b5ff49a43b9c4decbbe495ed21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 50/61] fix: diff reports malformed documents

---
 include/json_struct/json_struct_diff.h | 29 +++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index fa759cd..4caef6f 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -58,7 +58,8 @@ enum DiffError : unsigned char
 {
     NoError,
     NoTokens,
-    EmptyString
+    EmptyString,
+    InvalidJson
 };
 
 struct DiffOptions
@@ -148,16 +149,28 @@ struct DiffTokens
         tokenizer.addData(json, size);
         Token token;
         Error e = Error::NoError;
+        size_t depth = 0;
         while (e == Error::NoError)
         {
             e = tokenizer.nextToken(token);
             if (e == Error::NoError)
+            {
                 tokens.data.emplace_back(token);
+                if (Internal::Diff::isComplexValue(token))
+                    depth++;
+                else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+                    depth--;
+            }
         }
-        if (e == Error::NeedMoreData)
-            error = DiffError::NoError;
         if (tokens.data.size() == 0)
+        {
             error = DiffError::NoTokens;
+        }
+        else if (e != Error::NeedMoreData || depth)
+        {
+            tokens.data.clear();
+            error = DiffError::InvalidJson;
+        }
     }
 
     void skip(size_t *pos) const
@@ -747,12 +760,8 @@ namespace Internal
             }
             else if (base.tokens.data.size() && diff.tokens.data.empty())
             {
-                if (base.tokens.data[0].value_type == Type::ObjectStart)
-                    diff.addMissingMembers(0, base, 0);
-                else if (base.tokens.data[0].value_type == Type::ArrayStart)
-                    diff.addMissingArrayItems(0, base, 0);
-                else
-                    setStateForEntireToken(diff, 0, DiffType::ErroneousRootItem);
+                // There is no token that the difference could be reported at.
+                diff.error = DiffError::NoTokens;
             }
             else
             {
@@ -820,7 +829,7 @@ struct DiffContext
         base.reset(baseJson, baseSize);
         options = opt;
         diffs.clear();
-        error = DiffError::NoError;
+        error = base.error;
     }
 
     void reset(const std::string &baseJson, const DiffOptions &opt = {})
-- 
2.43.0


From e09487835c4e0147be9d1214af44d1f175b5cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 51/61] fix: the terminator of a literal is no part of a
 document to diff

---
 include/json_struct/json_struct_diff.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 4caef6f..622e9fe 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -809,7 +809,7 @@ struct DiffContext
 
     template <size_t SIZE>
     explicit DiffContext(const char (&baseJson)[SIZE], const DiffOptions &options = {})
-        : DiffContext(baseJson, SIZE, options)
+        : DiffContext(baseJson, SIZE - 1, options)
     {}
 
     explicit DiffContext(const std::string &baseJson, const DiffOptions &options = {})
@@ -881,7 +881,7 @@ struct DiffContext
     template <size_t SIZE>
     size_t diff(const char (&json)[SIZE])
     {
-        return diff(json, SIZE);
+        return diff(json, SIZE - 1);
     }
 
     void diff(DiffTokens &diffTokens)
-- 
2.43.0


From cd6eb9048c08a3bd65829a44a6b9afaa5fc9728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 52/61] fix: diff compares all bytes of a string

---
 include/json_struct/json_struct_diff.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 622e9fe..f91f804 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -437,7 +437,7 @@ namespace Internal
         {
             return (base.name_type == diff.name_type)
                 && (base.name.size == diff.name.size)
-                && (strncmp(base.name.data, diff.name.data, base.name.size) == 0);
+                && (!base.name.size || memcmp(base.name.data, diff.name.data, base.name.size) == 0);
         }
 
         inline bool isSameValueType(const Token &base, const Token &diff)
@@ -447,7 +447,7 @@ namespace Internal
 
         inline bool stringValuesEqual(const DataRef &base, const DataRef &diff)
         {
-            return (base.size == diff.size) && (strncmp(base.data, diff.data, base.size) == 0);
+            return (base.size == diff.size) && (!base.size || memcmp(base.data, diff.data, base.size) == 0);
         }
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
-- 
2.43.0


From 0e6adcb118cce0dfb2d8f879165e3db51a5379ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:13 +0000
Subject: [PATCH 53/61] fix: read a decimal text of any number of digits to the
 nearest double or float

---
 include/json_struct/json_struct.h | 178 ++++++++++++++++--------------
 1 file changed, 96 insertions(+), 82 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 467b4a0..6de0554 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8571,45 +8571,22 @@ inline int compare_value_scaled(big_uint_cmp value_digits, int decimal_exp, big_
   return compare_big(l, r);
 }
 
-inline void float_to_int_pow2(float g, big_uint_cmp &m, int &e2)
-{
-  uint32_t b;
-  memcpy(&b, &g, sizeof(b));
-  uint32_t ce = (b >> 23) & 0xff, mant = b & 0x7fffff;
-  m = big_uint_cmp();
-  m.w[0] = ce ? (mant | 0x800000) : mant;
-  e2 = ce ? int(ce) - 150 : -149;
-}
-
-inline void float_pair_midpoint(float g1, float g2, big_uint_cmp &mid_int, int &mid_pow2)
-{
-  big_uint_cmp m1, m2;
-  int e1, e2;
-  float_to_int_pow2(g1, m1, e1);
-  float_to_int_pow2(g2, m2, e2);
-  int emin = e1 < e2 ? e1 : e2;
-  m1.shift_left(e1 - emin);
-  m2.shift_left(e2 - emin);
-  size_t n = m1.w.size() > m2.w.size() ? m1.w.size() : m2.w.size();
-  m1.w.resize(n, 0);
-  uint64_t c = 0;
-  for (size_t i = 0; i < n; i++)
-  {
-    uint64_t p = uint64_t(m1.w[i]) + (i < m2.w.size() ? m2.w[i] : 0) + c;
-    m1.w[i] = uint32_t(p);
-    c = p >> 32;
-  }
-  if (c)
-    m1.w.push_back(uint32_t(c));
-  mid_int = m1;
-  mid_pow2 = emin - 1;
-}
-
-inline bool float_mantissa_is_even(float g)
+// Compares the decimal value with the midpoint between the float with the bits `lower` and the next one
+template <typename T>
+inline int compare_with_midpoint(const big_uint_cmp &digits, int decimal_exp, uint64_t lower)
 {
-  uint32_t b;
-  memcpy(&b, &g, sizeof(b));
-  return (b & 1) == 0;
+  const int width = float_info<T>::mentissa_width();
+  uint64_t mant = lower & ((uint64_t(1) << width) - 1);
+  int ce = int(lower >> width);
+  if (ce)
+    mant |= uint64_t(1) << width;
+  else
+    ce = 1;
+  mant = mant * 2 + 1;
+  big_uint_cmp mid;
+  mid.w[0] = uint32_t(mant);
+  mid.w.push_back(uint32_t(mant >> 32));
+  return compare_value_scaled(digits, decimal_exp, mid, ce - float_info<T>::bias() - width - 1);
 }
 
 // Clang builds compiled with -ffast-math (see the zero-value-test-fp-fast test
@@ -8628,25 +8605,10 @@ inline bool float_mantissa_is_even(float g)
 #define JS_FP_NONFINITE_DIAG_POP
 #endif
 
-inline float correctly_round_float(const char *str, size_t size, double d, float f)
+// The T nearest to the number in str, where f is known to be close to it
+template <typename T>
+inline T correctly_round(const char *str, size_t size, T f)
 {
-  if (f != f || f == 0.0f)
-    return f;
-  float af = f < 0.0f ? -f : f;
-  JS_FP_NONFINITE_DIAG_PUSH
-  if (!std::isfinite(af))
-    return f;
-  double ad = d < 0.0 ? -d : d;
-  float up = std::nextafter(af, std::numeric_limits<float>::infinity());
-  float dn = std::nextafter(af, 0.0f);
-  bool have_up = up > af && std::isfinite(up);
-  double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
-  JS_FP_NONFINITE_DIAG_POP
-  bool near_hi = have_up && std::fabs(ad - 0.5 * (double(af) + double(up))) <= 4.0 * ulp_d;
-  bool near_lo = std::fabs(ad - 0.5 * (double(dn) + double(af))) <= 4.0 * ulp_d;
-  if (!near_hi && !near_lo)
-    return f;
-
   const char *p = str;
   const char *end = str + size;
   while (p < end && is_space(*p))
@@ -8654,7 +8616,11 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
   if (p < end && (*p == '-' || *p == '+'))
     p++;
   big_uint_cmp digits;
-  int fracdigits = 0;
+  int decimal_exp = 0;
+  int digit_count = 0;
+  // No midpoint has more significant digits than this; of the others only matters if there is any
+  const int max_digits = 800;
+  bool dropped = false;
   bool seen_dot = false;
   for (; p < end; ++p)
   {
@@ -8668,12 +8634,28 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
     }
     if (c < '0' || c > '9')
       break;
+    if (digit_count < max_digits)
+    {
+      digits.mul_small(10);
+      digits.add_small(uint32_t(c - '0'));
+      if (digit_count || c != '0')
+        digit_count++;
+      if (seen_dot)
+        decimal_exp--;
+    }
+    else
+    {
+      dropped |= c != '0';
+      if (!seen_dot)
+        decimal_exp++;
+    }
+  }
+  if (dropped)
+  {
     digits.mul_small(10);
-    digits.add_small(uint32_t(c - '0'));
-    if (seen_dot)
-      fracdigits++;
+    digits.add_small(1);
+    decimal_exp--;
   }
-  int decimal_exp = -fracdigits;
   if (p < end && (*p == 'e' || *p == 'E'))
   {
     p++;
@@ -8686,36 +8668,65 @@ inline float correctly_round_float(const char *str, size_t size, double d, float
     int ex = 0;
     while (p < end && *p >= '0' && *p <= '9')
     {
-      ex = ex * 10 + (*p - '0');
+      if (ex < 100000000)
+        ex = ex * 10 + (*p - '0');
       p++;
     }
     decimal_exp += en ? -ex : ex;
   }
+  // far out of range, where f is zero or infinite
+  const int base10exponent = decimal_exp + digit_count - 1;
+  if (digit_count == 0 || base10exponent > float_info<T>::max_base10_exponent() + 1 ||
+      base10exponent < float_info<T>::min_base10_exponent() - 1)
+    return f;
 
-  float mag = af;
-  if (near_hi)
+  const uint64_t sign = uint64_t(1) << (sizeof(T) * 8 - 1);
+  const uint64_t inf = ((uint64_t(1) << float_info<T>::exponent_width()) - 1) << float_info<T>::mentissa_width();
+  uint64_t bits = 0;
+  memcpy(&bits, &f, sizeof(f));
+  uint64_t mag = bits & ~sign;
+  while (mag < inf)
   {
-    big_uint_cmp mid;
-    int e2;
-    float_pair_midpoint(af, up, mid, e2);
-    int c = compare_value_scaled(digits, decimal_exp, mid, e2);
-    if (c > 0)
-      mag = up;
-    else if (c == 0)
-      mag = float_mantissa_is_even(af) ? af : up;
+    int c = compare_with_midpoint<T>(digits, decimal_exp, mag);
+    if (c < 0 || (c == 0 && (mag & 1) == 0))
+      break;
+    mag++;
   }
-  if (mag == af && near_lo)
+  while (mag > 0)
   {
-    big_uint_cmp mid;
-    int e2;
-    float_pair_midpoint(dn, af, mid, e2);
-    int c = compare_value_scaled(digits, decimal_exp, mid, e2);
-    if (c < 0)
-      mag = dn;
-    else if (c == 0)
-      mag = float_mantissa_is_even(dn) ? dn : af;
+    int c = compare_with_midpoint<T>(digits, decimal_exp, mag - 1);
+    if (c > 0 || (c == 0 && (mag & 1) == 0))
+      break;
+    mag--;
   }
-  return std::signbit(f) ? -mag : mag;
+  bits = (bits & sign) | mag;
+  memcpy(&f, &bits, sizeof(f));
+  return f;
+}
+
+inline float correctly_round_float(const char *str, size_t size, double d, float f)
+{
+  if (f != f || d == 0.0)
+    return f;
+  JS_FP_NONFINITE_DIAG_PUSH
+  if (!std::isfinite(d))
+    return f;
+  float af = f < 0.0f ? -f : f;
+  double ad = d < 0.0 ? -d : d;
+  // the value that overflows lies as far above the biggest float as the next float would
+  const float biggest = std::numeric_limits<float>::max();
+  const double overflow = double(biggest) * 2 - double(std::nextafter(biggest, 0.0f));
+  float up = std::nextafter(af, std::numeric_limits<float>::infinity());
+  float dn = std::nextafter(af, 0.0f);
+  double af_d = std::isfinite(af) ? double(af) : overflow;
+  double up_d = std::isfinite(up) ? double(up) : overflow;
+  double ulp_d = std::nextafter(ad, std::numeric_limits<double>::infinity()) - ad;
+  JS_FP_NONFINITE_DIAG_POP
+  bool near_hi = std::fabs(ad - 0.5 * (af_d + up_d)) <= 4.0 * ulp_d;
+  bool near_lo = std::fabs(ad - 0.5 * (double(dn) + af_d)) <= 4.0 * ulp_d;
+  if (!near_hi && !near_lo)
+    return f;
+  return correctly_round<float>(str, size, f);
 }
 
 template <typename T>
@@ -8731,6 +8742,9 @@ inline parse_string_error to_ieee_t(const char *str, size_t size, T &target, con
   else
   {
     target = convertToNumber<T>(ps);
+    // the significand has room for 19 digits only
+    if (ps.significand_digit_count >= 19)
+      target = correctly_round<T>(str, size, target);
   }
   return parseResult;
 }
-- 
2.43.0


From b210897175e0fdbbbf6bd64106f671210dd661ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:34 +0000
Subject: [PATCH 54/61] fix: write the shortest digits that read back as the
 same float or double

---
 include/json_struct/json_struct.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6de0554..5aa4e23 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7645,7 +7645,7 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
   }
   if (accept_smaller && all_a_zero && a % 10 == 0)
   {
-    while (!(a_next % 10))
+    while (a % 10 == 0)
     {
       b_remainder = b % 10;
 
@@ -7664,7 +7664,7 @@ inline void compute_shortest(uint64_t a, uint64_t b, uint64_t c, bool accept_sma
 
   bool is_tie = b_remainder == 5 && all_b_zero;
   bool want_to_round_down = b_remainder < 5 || (is_tie && break_tie_down);
-  bool round_down = (want_to_round_down && (a != b || all_a_zero)) || (b + 1 > c);
+  bool round_down = (want_to_round_down && (a != b || (accept_smaller && all_a_zero))) || (b + 1 > c);
   if (round_down)
   {
     shortest_base10 = b;
@@ -7863,8 +7863,17 @@ static float_base10<SignificandType> decode(T f)
       }
     }
   }
-  auto cache_value = exp >= 0 ? cache_values<T>::greater_than_equals(q) : cache_values<T>::less_than(-exp - q);
-  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, true);
+  const uint64_t *cached = exp >= 0 ? cache_values<T>::greater_than_equals(q) : cache_values<T>::less_than(-exp - q);
+  uint64_t cache_value[2] = {cached[0], std::is_same<T, double>::value ? cached[1] : 0};
+  if (exp >= 0 && q > 0)
+  {
+    // The table holds the inverses rounded down. They have to be rounded up for
+    // a quotient that has no fraction to come out whole.
+    cache_value[0]++;
+    if (!cache_value[0])
+      cache_value[1]++;
+  }
+  uint64_t a = multiply_and_shift<T>(u, cache_value, shift_right, false);
   uint64_t b = multiply_and_shift<T>(mentissa, cache_value, shift_right, false);
   uint64_t c = multiply_and_shift<T>(w, cache_value, shift_right, false);
 
-- 
2.43.0


From bed905585c4c22f4a64928361ff3acf72b1d5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:33 +0000
Subject: [PATCH 55/61] fix: reformat reports an incomplete token after the
 document

---
 include/json_struct/json_struct.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5aa4e23..6901b53 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3048,6 +3048,7 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
   tokenizer.addData(data, size);
   Error error = Error::NoError;
   size_t open_containers = 0;
+  const char *after = data;
 
   Serializer serializer;
   serializer.setOptions(options);
@@ -3071,11 +3072,20 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
       open_containers++;
     else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
       open_containers--;
+    after = token.value.data + token.value.size;
     serializer.write(token);
   }
   out.resize(last_pos + serializer.currentBuffer().used);
   if (error == Error::NeedMoreData && !open_containers)
+  {
+    // a token that is not complete may follow the document
+    for (; after < data + size; after++)
+    {
+      if (*after && *after != ' ' && *after != '\t' && *after != '\r' && *after != '\n')
+        return error;
+    }
     return Error::NoError;
+  }
 
   return error;
 }
-- 
2.43.0


From dbfbe3d45d7c08d2539dd4b909991e6c69c66058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:33 +0000
Subject: [PATCH 56/61] fix: a copied map can be changed without losing its
 short values

---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 6901b53..a6b33b1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10114,7 +10114,9 @@ struct Map
     for (size_t i = 0; i < json_data.size(); i++)
     {
       const std::string &from = other.json_data[i].second;
-      const std::string &to = json_data[i].second;
+      std::string &to = json_data[i].second;
+      // a short string would keep its bytes in itself, and move them when json_data grows
+      to.reserve(sizeof(std::string));
       for (auto &token : tokens.data)
       {
         Internal::moveDataRef(token.name, from, to);
-- 
2.43.0


From 6f520b9c2e514bc1668eb2b6c23153a0441c4444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:28 +0000
Subject: [PATCH 57/61] fix: capturing from a list of stored tokens that ends
 with the opening bracket ran into an assertion

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a6b33b1..d099fc5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1412,7 +1412,7 @@ public:
   }
   bool isPlayingBackTokens() const
   {
-    return parsed_data_vector != nullptr;
+    return parsed_data_vector != nullptr || data_list.empty();
   }
 
 private:
-- 
2.43.0


From a015f32ce21bfdb44e9580cf3ba8f052c90dc27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:23 +0000
Subject: [PATCH 58/61] fix: a point in time that the clock has no room for is
 an error and not an overflow

---
 include/json_struct/json_struct.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d099fc5..ed0f906 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9216,19 +9216,28 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
       return err;
 
     if (t <= 1e11) // Seconds => 10 digits, normally
-      to_type = T{std::chrono::seconds{t}};
+      return assign<std::chrono::seconds>(to_type, t);
     else if (t <= 1e14) // Milliseconds => 13 digits, normally
-      to_type = T{std::chrono::milliseconds{t}};
+      return assign<std::chrono::milliseconds>(to_type, t);
     else if (t <= 1e17) // Microseconds
-      to_type = T{std::chrono::microseconds{t}};
+      return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
-        to_type = T{std::chrono::nanoseconds{t}};
+        return assign<std::chrono::nanoseconds>(to_type, t);
       else
         return JS::Error::IllegalDataValue;
     else
       return JS::Error::IllegalDataValue;
+  }
 
+  // a point in time that the clock has no room for is not in its range
+  template <typename Unit>
+  static inline Error assign(T &to_type, uint64_t t)
+  {
+    if (!std::chrono::treat_as_floating_point<typename T::rep>::value &&
+        t > uint64_t(std::chrono::duration_cast<Unit>(T::duration::max()).count()))
+      return JS::Error::IllegalDataValue;
+    to_type = T{Unit{t}};
     return JS::Error::NoError;
   }
 
-- 
2.43.0


From b4ce4e72a00366d204897b5907372be2c6fd6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:33 +0000
Subject: [PATCH 59/61] fix: the largest count of microseconds is compared as
 an integer

---
 include/json_struct/json_struct.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ed0f906..1acc769 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9215,11 +9215,11 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
     if (err != Error::NoError)
       return err;
 
-    if (t <= 1e11) // Seconds => 10 digits, normally
+    if (t <= UINT64_C(100000000000)) // Seconds => 10 digits, normally
       return assign<std::chrono::seconds>(to_type, t);
-    else if (t <= 1e14) // Milliseconds => 13 digits, normally
+    else if (t <= UINT64_C(100000000000000)) // Milliseconds => 13 digits, normally
       return assign<std::chrono::milliseconds>(to_type, t);
-    else if (t <= 1e17) // Microseconds
+    else if (t <= UINT64_C(100000000000000000)) // Microseconds
       return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
-- 
2.43.0


From e99d722755c2acbd4856d2e21bbd807d96030e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:20 +0000
Subject: [PATCH 60/61] fix: an unset capture by reference is written as an
 empty container, not as nothing

---
 include/json_struct/json_struct.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1acc769..318162e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9540,7 +9540,7 @@ struct TypeHandler<JsonArrayRef>
 
   static inline void from(const JsonArrayRef &from_type, Token &token, Serializer &serializer)
   {
-    token.value = from_type.ref;
+    token.value = from_type.ref.size ? from_type.ref : DataRef("[]");
     token.value_type = Type::Verbatim;
     serializer.write(token);
   }
@@ -9605,7 +9605,7 @@ struct TypeHandler<JsonObjectRef>
 
   static inline void from(const JsonObjectRef &from_type, Token &token, Serializer &serializer)
   {
-    token.value = from_type.ref;
+    token.value = from_type.ref.size ? from_type.ref : DataRef("{}");
     token.value_type = Type::Verbatim;
     serializer.write(token);
   }
@@ -9684,7 +9684,7 @@ struct TypeHandler<JsonObjectOrArrayRef>
 
   static inline void from(const JsonObjectOrArrayRef &from_type, Token &token, Serializer &serializer)
   {
-    token.value = from_type.ref;
+    token.value = from_type.ref.size ? from_type.ref : DataRef("{}");
     token.value_type = Type::Verbatim;
     serializer.write(token);
   }
-- 
2.43.0


From 4f7d22967b1237066c79c6ccad750dcb0a5e4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:27 +0000
Subject: [PATCH 61/61] fix: round doubles read with large exponents to the
 nearest value

The 128 bit conversion drops the bits it shifts out, so decimals of 17 and 18
digits that lie very close to the middle of two doubles were rounded the wrong
way, 97338774138954421e-289 for one.
---
 include/json_struct/json_struct.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 318162e..0ca6755 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8761,8 +8761,9 @@ inline parse_string_error to_ieee_t(const char *str, size_t size, T &target, con
   else
   {
     target = convertToNumber<T>(ps);
-    // the significand has room for 19 digits only
-    if (ps.significand_digit_count >= 19)
+    // The significand has room for 19 digits only, and 128 bits hold all that decides the
+    // rounding as long as the power of five is small
+    if (ps.significand_digit_count >= 19 || iabs<int>(ps.exp) > 27)
       target = correctly_round<T>(str, size, target);
   }
   return parseResult;
-- 
2.43.0

