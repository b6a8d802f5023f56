From 49d79a3bf37fa7e53e80788a4f23997201afb6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 001/100] fix: decode uuencoded articles into the output buffer

DecodeUx decoded the lines inside of the line buffer, the caller got as many
bytes of still encoded text instead. Lines whose first character is a dot were
not unstuffed either.
---
 daemon/nntp/ArticleDownloader.cpp |  6 +++--
 daemon/nntp/Decoder.cpp           | 42 ++++++++++++++++++++-----------
 daemon/nntp/Decoder.h             |  2 +-
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/daemon/nntp/ArticleDownloader.cpp b/daemon/nntp/ArticleDownloader.cpp
index 5e60471..876dc9c 100644
--- a/daemon/nntp/ArticleDownloader.cpp
+++ b/daemon/nntp/ArticleDownloader.cpp
@@ -335,7 +335,9 @@ ArticleDownloader::EStatus ArticleDownloader::Download()
 	m_decoder.SetRawMode(g_Options->GetRawArticle());
 
 	status = adRunning;
-	CharBuffer lineBuf(1024*4);
+	// decoding of a line, which started in the previous chunk, may need extra space
+	const int extraSpace = 64;
+	CharBuffer lineBuf(1024*4 + extraSpace);
 
 	while (!IsStopped() && !m_decoder.GetEof())
 	{
@@ -353,7 +355,7 @@ ArticleDownloader::EStatus ArticleDownloader::Download()
 		m_connection->ReadBuffer(&buffer, &len);
 		if (len == 0)
 		{
-			len = m_connection->TryRecv(lineBuf, lineBuf.Size());
+			len = m_connection->TryRecv(lineBuf, lineBuf.Size() - extraSpace);
 			buffer = lineBuf;
 		}
 
diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 54e5e00..0334db5 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -117,7 +117,9 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 		}
 		else if (m_format == efUx)
 		{
-			outlen += DecodeUx(line, llen);
+			// undo dot-stuffing
+			int skip = line[0] == '.' && line[1] == '.' ? 1 : 0;
+			outlen += DecodeUx(line + skip, llen - skip, buffer + outlen);
 		}
 
 		line = end + 1;
@@ -321,7 +323,11 @@ Decoder::EStatus Decoder::CheckYenc()
 
 #define UU_DECODE_CHAR(c) (c == '`' ? 0 : (((c) - ' ') & 077))
 
-int Decoder::DecodeUx(char* buffer, int len)
+/*
+ * Decodes one line. The number of bytes stored in "outbuf" is neither greater than 63
+ * nor greater than the length of the line.
+ */
+int Decoder::DecodeUx(char* buffer, int len, char* outbuf)
 {
 	if (!m_body)
 	{
@@ -362,27 +368,35 @@ int Decoder::DecodeUx(char* buffer, int len)
 			return 0;
 		}
 
+		// trailing spaces may have been stripped from the line
+		char* lineEnd = buffer + len;
+		while (lineEnd > buffer && (lineEnd[-1] == '\n' || lineEnd[-1] == '\r'))
+		{
+			lineEnd--;
+		}
+
 		char* iptr = buffer;
-		char* optr = buffer;
+		char* optr = outbuf;
 		for (++iptr; effLen > 0; iptr += 4, effLen -= 3)
 		{
-			if (effLen >= 3)
+			char quad[4];
+			for (int i = 0; i < 4; i++)
 			{
-				*optr++ = UU_DECODE_CHAR (iptr[0]) << 2 | UU_DECODE_CHAR (iptr[1]) >> 4;
-				*optr++ = UU_DECODE_CHAR (iptr[1]) << 4 | UU_DECODE_CHAR (iptr[2]) >> 2;
-				*optr++ = UU_DECODE_CHAR (iptr[2]) << 6 | UU_DECODE_CHAR (iptr[3]);
+				quad[i] = iptr + i < lineEnd ? UU_DECODE_CHAR(iptr[i]) : 0;
 			}
-			else
+
+			*optr++ = quad[0] << 2 | quad[1] >> 4;
+			if (effLen >= 2)
 			{
-				*optr++ = UU_DECODE_CHAR (iptr[0]) << 2 | UU_DECODE_CHAR (iptr[1]) >> 4;
-				if (effLen >= 2)
-				{
-					*optr++ = UU_DECODE_CHAR (iptr[1]) << 4 | UU_DECODE_CHAR (iptr[2]) >> 2;
-				}
+				*optr++ = quad[1] << 4 | quad[2] >> 2;
+			}
+			if (effLen >= 3)
+			{
+				*optr++ = quad[2] << 6 | quad[3];
 			}
 		}
 
-		return (int)(optr - buffer);
+		return (int)(optr - outbuf);
 	}
 
 	return 0;
diff --git a/daemon/nntp/Decoder.h b/daemon/nntp/Decoder.h
index ba8ac7e..ee73639 100644
--- a/daemon/nntp/Decoder.h
+++ b/daemon/nntp/Decoder.h
@@ -85,7 +85,7 @@ private:
 	void ProcessYenc(char* buffer, int len);
 	int DecodeYenc(char* buffer, char* outbuf, int len);
 	EStatus CheckYenc();
-	int DecodeUx(char* buffer, int len);
+	int DecodeUx(char* buffer, int len, char* outbuf);
 	EStatus CheckUx();
 	void ProcessRaw(char* buffer, int len);
 };
-- 
2.43.0


From a7937998ad30074c9400351b46e0c6e3f1eb6ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:33 +0000
Subject: [PATCH 002/100] fix: no overlapping strncpy when the whole article is
 in the line buffer

Decoder::DecodeYenc appends the rest of the line buffer to the line buffer.
---
 daemon/util/NString.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/util/NString.cpp b/daemon/util/NString.cpp
index ca009a6..2e82a9a 100644
--- a/daemon/util/NString.cpp
+++ b/daemon/util/NString.cpp
@@ -364,7 +364,8 @@ void StringBuilder::Append(const char* str, int len)
 
 	Reserve(newLen, false);
 
-	strncpy(m_data + curLen, str, len);
+	// the text may be a part of this very buffer
+	memmove(m_data + curLen, str, len);
 	m_data[curLen + len] = '\0';
 	m_length = newLen;
 }
-- 
2.43.0


From 091777436a8decce16cd78022f6dff5cc30c10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:24 +0000
Subject: [PATCH 003/100] fix: recognise the end of raw articles for every
 split into reads

ProcessRaw read beyond the received data and missed the end marker when it was
received in pieces of one or two bytes.
---
 daemon/nntp/Decoder.cpp | 52 ++++++++++-------------------------------
 1 file changed, 12 insertions(+), 40 deletions(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 0334db5..18575de 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -414,47 +414,19 @@ Decoder::EStatus Decoder::CheckUx()
 
 void Decoder::ProcessRaw(char* buffer, int len)
 {
-	switch (m_state)
-	{
-		case 1:
-			m_eof = len >= 4 && buffer[0] == '\n' &&
-				buffer[1] == '.' && buffer[2] == '\r' && buffer[3] == '\n';
-			break;
-
-		case 2:
-			m_eof = len >= 3 && buffer[0] == '.' && buffer[1] == '\r' && buffer[2] == '\n';
-			break;
-
-		case 3:
-			m_eof = len >= 2 && buffer[0] == '\r' && buffer[1] == '\n';
-			break;
-
-		case 4:
-			m_eof = len >= 1 && buffer[0] == '\n';
-			break;
-	}
+	// m_state is the number of characters of the end marker found so far
+	static const char eofMarker[] = "\r\n.\r\n";
 
-	m_eof |= len >= 5 && strstr(buffer, "\r\n.\r\n");
-
-	if (len >= 4 && buffer[len-4] == '\r' && buffer[len-3] == '\n' &&
-		buffer[len-2] == '.' && buffer[len-1] == '\r')
-	{
-		m_state = 4;
-	}
-	else if (len >= 3 && buffer[len-3] == '\r' && buffer[len-2] == '\n' && buffer[len-1] == '.')
-	{
-		m_state = 3;
-	}
-	else if (len >= 2 && buffer[len-2] == '\r' && buffer[len-1] == '\n')
-	{
-		m_state = 2;
-	}
-	else if (len >= 1 && buffer[len-1] == '\r')
-	{
-		m_state = 1;
-	}
-	else
+	for (int i = 0; i < len && !m_eof; i++)
 	{
-		m_state = 0;
+		if (buffer[i] == eofMarker[(int)m_state])
+		{
+			m_state++;
+		}
+		else
+		{
+			m_state = buffer[i] == '\r' ? 1 : 0;
+		}
+		m_eof = m_state == 5;
 	}
 }
-- 
2.43.0


From 638da137517ec7afa8236db2e5309f76d955880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 004/100] fix: forget the format of the previous article when a
 decoder is reused

A good article of another format, fetched after a damaged one through the same
downloader, was decoded with the wrong decoder.
---
 daemon/nntp/Decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 18575de..e17e979 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -34,6 +34,7 @@ Decoder::Decoder()
 
 void Decoder::Clear()
 {
+	m_format = efUnknown;
 	m_articleFilename.Clear();
 	m_body = false;
 	m_begin = false;
-- 
2.43.0


From 128539507943356cdca6a9dd8f85b468b10e5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:39 +0000
Subject: [PATCH 005/100] fix: an empty article with a damaged =yend line is
 not complete

---
 daemon/nntp/Decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index e17e979..98e3118 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -47,7 +47,7 @@ void Decoder::Clear()
 	m_beginPos = 0;
 	m_endPos = 0;
 	m_size = 0;
-	m_endSize = 0;
+	m_endSize = -1;
 	m_outSize = 0;
 	m_state = 0;
 	m_crcCheck = false;
-- 
2.43.0


From 62451aa47c9fb5a61c326aa054d0eb8121e8948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 006/100] fix: keep data decoded before a second =ybegin in the
 same article

The size and checksum checks counted it but the output buffer lost it, so a
damaged article could pass as complete.
---
 daemon/nntp/Decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 98e3118..a17aecb 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -106,7 +106,7 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 			ProcessYenc(line, llen);
 			if (m_body)
 			{
-				outlen = DecodeYenc(end + 1, buffer, m_lineBuf.Length() - (int)(end + 1 - m_lineBuf));
+				outlen += DecodeYenc(end + 1, buffer + outlen, m_lineBuf.Length() - (int)(end + 1 - m_lineBuf));
 				if (m_body)
 				{
 					m_lineBuf.SetLength(0);
-- 
2.43.0


From 779a448bd601472fff18acadcb1a7f11692a0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:12 +0000
Subject: [PATCH 007/100] fix: read yEnc headers only from their own line and
 not from the file name

A single part article was lost when its name, or encoded data in the same
read, contained ' part='; missing trailer attributes were taken from later lines.
---
 daemon/nntp/Decoder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index a17aecb..0b4e982 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -176,6 +176,9 @@ Decoder::EFormat Decoder::DetectFormat(const char* buffer, int len)
 
 void Decoder::ProcessYenc(char* buffer, int len)
 {
+	// the line must not be searched beyond its end
+	buffer[len - 1] = '\0';
+
 	if (!strncmp(buffer, "=ybegin ", 8))
 	{
 		m_begin = true;
@@ -186,6 +189,8 @@ void Decoder::ProcessYenc(char* buffer, int len)
 			char* pe;
 			for (pe = pb; *pe != '\0' && *pe != '\n' && *pe != '\r'; pe++);
 			m_articleFilename = WebUtil::Latin1ToUtf8(CString(pb, (int)(pe - pb)));
+			// the name is the last attribute and may contain anything
+			pb[-5] = '\0';
 		}
 		pb = strstr(buffer, " size=");
 		if (pb)
-- 
2.43.0


From 75b82987990ef4fde22f0f44553d6dcb36f241a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:32 +0000
Subject: [PATCH 008/100] fix: correct wildcard positions after backtracking in
 WildMask

---
 daemon/util/Util.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index f138968..729a9de 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1580,7 +1580,7 @@ bool WildMask::Match(const char* text)
 	const char* str = text;
 	const char *spos, *wpos;
 	bool qmark = false;
-	bool star = false;
+	int starCount = 0; // number of wildcards up to and including the last star
 
 	spos = wpos = str;
 	while (*str && *pat != '*')
@@ -1625,17 +1625,17 @@ bool WildMask::Match(const char* text)
 				m_wildLen[m_wildCount-1] = (int)(str - (text + m_wildStart[m_wildCount-1]));
 				qmark = false;
 			}
-			if (m_wantsPositions && !star)
+			if (m_wantsPositions && (pat == *m_pattern || pat[-1] != '*'))
 			{
 				ExpandArray();
 				m_wildStart[m_wildCount-1] = (int)(str - text);
 				m_wildLen[m_wildCount-1] = 0;
-				star = true;
+				starCount = m_wildCount;
 			}
 
 			if (*++pat == '\0')
 			{
-				if (m_wantsPositions && star)
+				if (m_wantsPositions)
 				{
 					m_wildLen[m_wildCount-1] = strlen(str);
 				}
@@ -1665,26 +1665,22 @@ bool WildMask::Match(const char* text)
 				m_wildLen[m_wildCount-1] = (int)(str - (text + m_wildStart[m_wildCount-1]));
 				qmark = false;
 			}
-			else if (m_wantsPositions && star)
-			{
-				m_wildLen[m_wildCount-1] = (int)(str - (text + m_wildStart[m_wildCount-1]));
-				star = false;
-			}
 
 			pat++;
 			str++;
 		}
 		else
 		{
-			if (m_wantsPositions && qmark)
+			pat = wpos;
+			str = spos++;
+
+			if (m_wantsPositions)
 			{
-				m_wildCount--;
+				// forget wildcards after the last star and extend the star
+				m_wildCount = starCount;
+				m_wildLen[starCount-1] = (int)(str - (text + m_wildStart[starCount-1]));
 				qmark = false;
 			}
-
-			pat = wpos;
-			str = spos++;
-			star = true;
 		}
 	}
 
@@ -1693,7 +1689,7 @@ bool WildMask::Match(const char* text)
 		m_wildLen[m_wildCount-1] = (int)(str - (text + m_wildStart[m_wildCount-1]));
 	}
 
-	if (*pat == '*' && m_wantsPositions && !star)
+	if (*pat == '*' && m_wantsPositions && (pat == *m_pattern || pat[-1] != '*'))
 	{
 		ExpandArray();
 		m_wildStart[m_wildCount-1] = (int)(str - text);
-- 
2.43.0


From f40daf189aaf6e7365afb340a295b89467749879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:45 +0000
Subject: [PATCH 009/100] fix: empty wildcard references in feed filters are
 empty

---
 daemon/feed/FeedFilter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daemon/feed/FeedFilter.cpp b/daemon/feed/FeedFilter.cpp
index 41a9b00..5695342 100644
--- a/daemon/feed/FeedFilter.cpp
+++ b/daemon/feed/FeedFilter.cpp
@@ -505,7 +505,9 @@ void FeedFilter::Term::FillWildMaskRefValues(const char* strValue, WildMask* mas
 
 	for (int i = refOffset; i < mask->GetMatchCount(); i++)
 	{
-		m_refValues->emplace_back(strValue + mask->GetMatchStart(i), mask->GetMatchLen(i));
+		// (length 0 would mean the rest of the string)
+		int len = mask->GetMatchLen(i);
+		m_refValues->emplace_back(len > 0 ? strValue + mask->GetMatchStart(i) : "", len);
 	}
 }
 
@@ -518,7 +520,8 @@ void FeedFilter::Term::FillRegExRefValues(const char* strValue, RegEx* regEx)
 
 	for (int i = 1; i < regEx->GetMatchCount(); i++)
 	{
-		m_refValues->emplace_back(strValue + regEx->GetMatchStart(i), regEx->GetMatchLen(i));
+		int len = regEx->GetMatchLen(i);
+		m_refValues->emplace_back(len > 0 ? strValue + regEx->GetMatchStart(i) : "", len);
 	}
 }
 
-- 
2.43.0


From ac05d70ef570d94768a952dddd073dcb194f77cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 010/100] fix: XML entities at the end of a string and numeric
 character references

---
 daemon/util/Util.cpp | 51 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 729a9de..10aa05f 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -730,6 +730,35 @@ uint32 WebUtil::DecodeBase64(char* inputBuffer, int inputBufferLength, char* out
 /* END - Base64
 */
 
+// writes one Unicode character as UTF-8, returns position after it
+static char* PutUtf8(char* output, uint32 cp)
+{
+	if (cp < 0x80)
+	{
+		*output++ = (char)cp;
+		return output;
+	}
+	if (cp < 0x800)
+	{
+		*output++ = (char)(0xc0 | (cp >> 6));
+	}
+	else
+	{
+		if (cp < 0x10000)
+		{
+			*output++ = (char)(0xe0 | (cp >> 12));
+		}
+		else
+		{
+			*output++ = (char)(0xf0 | (cp >> 18));
+			*output++ = (char)(0x80 | ((cp >> 12) & 0x3f));
+		}
+		*output++ = (char)(0x80 | ((cp >> 6) & 0x3f));
+	}
+	*output++ = (char)(0x80 | (cp & 0x3f));
+	return output;
+}
+
 CString WebUtil::XmlEncode(const char* raw)
 {
 	// calculate the required outputstring-size based on number of xml-entities and their sizes
@@ -890,15 +919,25 @@ void WebUtil::XmlDecode(char* raw)
 					}
 					else if (*p == '#')
 					{
-						int code = atoi((p++)+1);
-						while (strchr("0123456789;", *p)) p++;
-						*output++ = (char)code;
+						bool hex = p[1] == 'x' || p[1] == 'X';
+						char* digits = p + 1 + hex;
+						char* end = digits;
+						long code = isxdigit((uchar)*digits) ? strtol(digits, &end, hex ? 16 : 10) : 0;
+						if (end > digits && code > 0 && code <= 0x10FFFF)
+						{
+							output = PutUtf8(output, (uint32)code);
+							p = *end == ';' ? end + 1 : end;
+						}
+						else
+						{
+							// invalid reference, keep as is
+							*output++ = '&';
+						}
 					}
 					else
 					{
 						// unknown entity, keep as is
-						*output++ = *(p-1);
-						*output++ = *p++;
+						*output++ = '&';
 					}
 					break;
 				}
@@ -981,7 +1020,7 @@ void WebUtil::XmlRemoveEntities(char* raw)
 			case '&':
 			{
 				char* p2 = p+1;
-				while (isalpha(*p2) || strchr("0123456789#", *p2)) p2++;
+				while (isalpha(*p2) || (*p2 && strchr("0123456789#", *p2))) p2++;
 				if (*p2 == ';')
 				{
 					*output++ = ' ';
-- 
2.43.0


From 495ae278bd89749ca1059b190f864dcbbc557c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 011/100] fix: decode unicode escapes in JSON strings and stop
 at the end of the string

---
 daemon/util/Util.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 10aa05f..7a3d591 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1163,6 +1163,22 @@ BreakLoop:
 	return result;
 }
 
+// parses exactly four hexadecimal digits
+static bool ParseHex4(const char* str, uint32* value)
+{
+	*value = 0;
+	for (int i = 0; i < 4; i++)
+	{
+		if (!isxdigit((uchar)str[i]))
+		{
+			return false;
+		}
+		char digit[2] = { str[i], '\0' };
+		*value = (*value << 4) + (uint32)strtol(digit, nullptr, 16);
+	}
+	return true;
+}
+
 void WebUtil::JsonDecode(char* raw)
 {
 	char* output = raw;
@@ -1202,9 +1218,27 @@ void WebUtil::JsonDecode(char* raw)
 							*output++ = '\t';
 							break;
 						case 'u':
-							*output++ = (char)strtol(p + 1, nullptr, 16);
-							p += 4;
+							{
+								uint32 cp = 0;
+								if (!ParseHex4(p + 1, &cp))
+								{
+									// invalid escape-sequence, keep as is
+									*output++ = *p;
+									break;
+								}
+								p += 4;
+								uint32 low = 0;
+								if (0xD800 <= cp && cp <= 0xDBFF && p[1] == '\\' && p[2] == 'u' &&
+									ParseHex4(p + 3, &low) && 0xDC00 <= low && low <= 0xDFFF)
+								{
+									cp = 0x10000 + ((cp - 0xD800) << 10) + (low - 0xDC00);
+									p += 6;
+								}
+								output = PutUtf8(output, cp);
+							}
 							break;
+						case '\0':
+							goto BreakLoop;
 						default:
 							// unknown escape-sequence, should never occur
 							*output++ = *p;
-- 
2.43.0


From 9599b685b19580580e8f769189c63eb0592f375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 012/100] fix: find the end of JSON strings with successive
 escapes

---
 daemon/util/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 7a3d591..11c3c65 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1286,7 +1286,7 @@ const char* WebUtil::JsonNextValue(const char* jsonText, int* valueLength)
 	}
 	while (ch)
 	{
-		if (ch == '\\')
+		while (ch == '\\')
 		{
 			if (!*++pend || !*++pend) return nullptr;
 			ch = *pend;
-- 
2.43.0


From abbc0ded2652b96f09f44ac2dbb2a80b76518d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 013/100] fix: byte 0x80 and characters beyond U+FFFF in RPC
 answers

---
 daemon/util/Util.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 11c3c65..2dfb0db 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -821,7 +821,7 @@ CString WebUtil::XmlEncode(const char* raw)
 				output += 6;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
@@ -1115,7 +1115,7 @@ CString WebUtil::JsonEncode(const char* raw)
 				output += 2;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
@@ -1145,9 +1145,17 @@ CString WebUtil::JsonEncode(const char* raw)
 						cp += ch & 0x3f;
 					}
 
-					// we support only Unicode range U+0000-U+FFFF
-					sprintf(output, "\\u%04x", cp <= 0xFFFF ? cp : '.');
-					output += 6;
+					if (0x10000 <= cp && cp <= 0x10FFFF)
+					{
+						// surrogate pair
+						sprintf(output, "\\u%04x\\u%04x", 0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 0x3FF));
+						output += 12;
+					}
+					else
+					{
+						sprintf(output, "\\u%04x", cp <= 0xFFFF ? cp : '.');
+						output += 6;
+					}
 				}
 				else
 				{
-- 
2.43.0


From dfbb096a7d8b61364e6b769cb1d4421d91eae8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 014/100] fix: escaped characters in quoted HTTP header values

---
 daemon/util/Util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 2dfb0db..2a49aa9 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1332,7 +1332,10 @@ void WebUtil::HttpUnquote(char* raw)
 				goto BreakLoop;
 			case '\\':
 				p++;
-				*output++ = *p;
+				if (*p)
+				{
+					*output++ = *p++;
+				}
 				break;
 			default:
 				*output++ = *p++;
-- 
2.43.0


From 71cc835532a7f48d9e4e2a9346f4a66c55a504ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 015/100] fix: incomplete escape at the end of URLs

---
 daemon/util/Util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 2a49aa9..57eb9bb 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1359,6 +1359,12 @@ void WebUtil::UrlDecode(char* raw)
 			case '%':
 				{
 					p++;
+					if (!isxdigit((uchar)p[0]) || !isxdigit((uchar)p[1]))
+					{
+						// not an escape-sequence, keep as is
+						*output++ = '%';
+						break;
+					}
 					uchar c1 = *p++;
 					uchar c2 = *p++;
 					c1 = '0' <= c1 && c1 <= '9' ? c1 - '0' : 'A' <= c1 && c1 <= 'F' ? c1 - 'A' + 10 :
-- 
2.43.0


From de2c38518124fd42d117992847f361e6fc9ebe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:38 +0000
Subject: [PATCH 016/100] fix: subjects that are empty or end with a quotation
 mark

---
 daemon/queue/NzbFile.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index cd2f9e1..bde17cc 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -125,12 +125,13 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 
 	// strip the "yEnc (10/99)"-suffix
 	BString<1024> subject = fileInfo->GetSubject();
-	char* end = subject + strlen(subject) - 1;
-	if (*end == ')')
+	int subjectLen = subject.Length();
+	char* end = subject + (subjectLen > 0 ? subjectLen - 1 : 0);
+	if (*end == ')' && end > subject)
 	{
 		end--;
 		while (strchr("0123456789", *end) && end > subject) end--;
-		if (*end == '/')
+		if (*end == '/' && end > subject)
 		{
 			end--;
 			while (strchr("0123456789", *end) && end > subject) end--;
@@ -149,7 +150,7 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 		if (start)
 		{
 			start++;
-			char* end = strchr(start + 1, '\"');
+			char* end = *start ? strchr(start + 1, '\"') : nullptr;
 			if (end)
 			{
 				int len = (int)(end - start);
@@ -188,6 +189,10 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 			{
 				tokens.emplace_back(start, len);
 			}
+			if (ch == '\0')
+			{
+				break;
+			}
 			start = p;
 			if (ch != '\"' || quot)
 			{
@@ -208,10 +213,6 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 				}
 			}
 		}
-		if (ch == '\0')
-		{
-			break;
-		}
 		p++;
 	}
 
-- 
2.43.0


From fedf1777af96756da9bd6bcacb250b9620583d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:38 +0000
Subject: [PATCH 017/100] fix: segments with invalid numbers or sizes in
 nzb-files

---
 daemon/queue/NzbFile.cpp | 89 +++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 47 deletions(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index bde17cc..0a80cc1 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -28,6 +28,10 @@
 #include "Util.h"
 #include "FileSystem.h"
 
+// Larger values can come only from malformed nzb-files
+static const int MAX_PART_NUMBER = 1000000;
+static const int MAX_ARTICLE_SIZE = 0x7FFFFFFF;
+
 NzbFile::NzbFile(const char* fileName, const char* category) :
 	m_fileName(fileName)
 {
@@ -46,54 +50,37 @@ void NzbFile::LogDebugInfo()
 
 void NzbFile::AddArticle(FileInfo* fileInfo, std::unique_ptr<ArticleInfo> articleInfo)
 {
-	int index = articleInfo->GetPartNumber() - 1;
-
-	// make Article-List big enough
-	if (index >= (int)fileInfo->GetArticles()->size())
-	{
-		fileInfo->GetArticles()->resize(index + 1);
-	}
-
-	(*fileInfo->GetArticles())[index] = std::move(articleInfo);
+	// the articles are sorted and checked for gaps when the file is complete
+	fileInfo->GetArticles()->push_back(std::move(articleInfo));
 }
 
 void NzbFile::AddFileInfo(std::unique_ptr<FileInfo> fileInfo)
 {
-	// calculate file size and delete empty articles
+	// calculate file size and count missing articles
+
+	ArticleList* articles = fileInfo->GetArticles();
+
+	// sort by part number; if a part is listed more than once the last one counts
+	std::stable_sort(articles->begin(), articles->end(),
+		[](const std::unique_ptr<ArticleInfo>& first, const std::unique_ptr<ArticleInfo>& second)
+		{
+			return first->GetPartNumber() < second->GetPartNumber();
+		});
+	ArticleList::iterator rfirst = std::unique(articles->rbegin(), articles->rend(),
+		[](const std::unique_ptr<ArticleInfo>& first, const std::unique_ptr<ArticleInfo>& second)
+		{
+			return first->GetPartNumber() == second->GetPartNumber();
+		}).base();
+	articles->erase(articles->begin(), rfirst);
 
 	int64 size = 0;
-	int64 missedSize = 0;
 	int64 oneSize = 0;
-	int uncountedArticles = 0;
-	int missedArticles = 0;
-	int totalArticles = (int)fileInfo->GetArticles()->size();
-	int i = 0;
-	for (ArticleList::iterator it = fileInfo->GetArticles()->begin(); it != fileInfo->GetArticles()->end(); )
-	{
-		ArticleInfo* article = (*it).get();
-		if (!article)
-		{
-			fileInfo->GetArticles()->erase(it);
-			it = fileInfo->GetArticles()->begin() + i;
-			missedArticles++;
-			if (oneSize > 0)
-			{
-				missedSize += oneSize;
-			}
-			else
-			{
-				uncountedArticles++;
-			}
-		}
-		else
+	for (ArticleInfo* article : articles)
+	{
+		size += article->GetSize();
+		if (oneSize == 0)
 		{
-			size += article->GetSize();
-			if (oneSize == 0)
-			{
-				oneSize = article->GetSize();
-			}
-			it++;
-			i++;
+			oneSize = article->GetSize();
 		}
 	}
 
@@ -102,7 +89,9 @@ void NzbFile::AddFileInfo(std::unique_ptr<FileInfo> fileInfo)
 		return;
 	}
 
-	missedSize += uncountedArticles * oneSize;
+	int totalArticles = articles->back()->GetPartNumber();
+	int missedArticles = totalArticles - (int)articles->size();
+	int64 missedSize = missedArticles * oneSize;
 	size += missedSize;
 	fileInfo->SetNzbInfo(m_nzbInfo.get());
 	fileInfo->SetSize(size);
@@ -682,8 +671,8 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 			return;
 		}
 
-		int64 lsize = -1;
-		int partNumber = -1;
+		int64 lsize = 0;
+		int64 partNumber = -1;
 
 		for (int i = 0; atts[i]; i += 2)
 		{
@@ -691,20 +680,26 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 			const char* attrvalue = atts[i + 1];
 			if (!strcmp("bytes", attrname))
 			{
-				lsize = atol(attrvalue);
+				lsize = atoll(attrvalue);
 			}
 			if (!strcmp("number", attrname))
 			{
-				partNumber = atol(attrvalue);
+				partNumber = atoll(attrvalue);
 			}
 		}
 
+		if (partNumber > MAX_PART_NUMBER || lsize < 0 || lsize > MAX_ARTICLE_SIZE)
+		{
+			m_nzbInfo->AddMessage(Message::mkWarning, "Malformed nzb-file, segment with invalid number or size");
+			return;
+		}
+
 		if (partNumber > 0)
 		{
 			// new segment, add it!
 			std::unique_ptr<ArticleInfo> article = std::make_unique<ArticleInfo>();
-			article->SetPartNumber(partNumber);
-			article->SetSize(lsize);
+			article->SetPartNumber((int)partNumber);
+			article->SetSize((int)lsize);
 			m_article = article.get();
 			AddArticle(m_fileInfo.get(), std::move(article));
 		}
-- 
2.43.0


From 69a7829c31584e20208841fff655f3c723483ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:11 +0000
Subject: [PATCH 018/100] fix: incomplete and wrongly nested elements in
 nzb-files

---
 daemon/queue/NzbFile.cpp | 25 ++++++++++++++++---------
 daemon/queue/NzbFile.h   |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index 0a80cc1..cf28eeb 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -634,6 +634,7 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 
 	if (!strcmp("file", name))
 	{
+		m_article.reset();
 		m_fileInfo = std::make_unique<FileInfo>();
 		m_fileInfo->SetFilename(m_fileName);
 
@@ -659,6 +660,8 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 	}
 	else if (!strcmp("segment", name))
 	{
+		m_article.reset();
+
 		if (!m_fileInfo)
 		{
 			m_nzbInfo->AddMessage(Message::mkWarning, "Malformed nzb-file, tag <segment> without tag <file>");
@@ -696,12 +699,10 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 
 		if (partNumber > 0)
 		{
-			// new segment, add it!
-			std::unique_ptr<ArticleInfo> article = std::make_unique<ArticleInfo>();
-			article->SetPartNumber((int)partNumber);
-			article->SetSize((int)lsize);
-			m_article = article.get();
-			AddArticle(m_fileInfo.get(), std::move(article));
+			// new segment, it will be added when its message id is known
+			m_article = std::make_unique<ArticleInfo>();
+			m_article->SetPartNumber((int)partNumber);
+			m_article->SetSize((int)lsize);
 		}
 	}
 	else if (!strcmp("meta", name))
@@ -719,9 +720,15 @@ void NzbFile::Parse_EndElement(const char *name)
 {
 	if (!strcmp("file", name))
 	{
+		if (!m_fileInfo)
+		{
+			// error: bad nzb-file
+			return;
+		}
+
 		// Close the file element, add the new file to file-list
 		AddFileInfo(std::move(m_fileInfo));
-		m_article = nullptr;
+		m_article.reset();
 	}
 	else if (!strcmp("group", name))
 	{
@@ -736,7 +743,7 @@ void NzbFile::Parse_EndElement(const char *name)
 	}
 	else if (!strcmp("segment", name))
 	{
-		if (!m_fileInfo || !m_article)
+		if (!m_fileInfo || !m_article || m_tagContent.Empty())
 		{
 			// error: bad nzb-file
 			return;
@@ -745,7 +752,7 @@ void NzbFile::Parse_EndElement(const char *name)
 		// Get the #text part
 		BString<1024> id("<%s>", *m_tagContent);
 		m_article->SetMessageId(id);
-		m_article = nullptr;
+		AddArticle(m_fileInfo.get(), std::move(m_article));
 	}
 	else if (!strcmp("meta", name) && m_hasPassword)
 	{
diff --git a/daemon/queue/NzbFile.h b/daemon/queue/NzbFile.h
index d5bd2cb..f8b63d3 100644
--- a/daemon/queue/NzbFile.h
+++ b/daemon/queue/NzbFile.h
@@ -54,7 +54,7 @@ private:
 	static void EncodeUrl(const char* filename, char* url, int bufLen);
 #else
 	std::unique_ptr<FileInfo> m_fileInfo;
-	ArticleInfo* m_article = nullptr;
+	std::unique_ptr<ArticleInfo> m_article;
 	StringBuilder m_tagContent;
 	bool m_ignoreNextError;
 	bool m_hasPassword = false;
-- 
2.43.0


From 7e21d8e7b1edddfc8c5d83bde429258acdb68613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:36 +0000
Subject: [PATCH 019/100] fix: blanks in nzb elements with character entities

---
 daemon/queue/NzbFile.cpp | 59 +++++++++++-----------------------------
 1 file changed, 16 insertions(+), 43 deletions(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index cf28eeb..c84751c 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -718,6 +718,10 @@ void NzbFile::Parse_StartElement(const char *name, const char **atts)
 
 void NzbFile::Parse_EndElement(const char *name)
 {
+	// trim the text of the element (it may have been received in several parts)
+	CString tagContent((const char*)m_tagContent + strspn(m_tagContent, " \n\r\t"));
+	tagContent.TrimRight();
+
 	if (!strcmp("file", name))
 	{
 		if (!m_fileInfo)
@@ -738,31 +742,37 @@ void NzbFile::Parse_EndElement(const char *name)
 			return;
 		}
 
-		m_fileInfo->GetGroups()->push_back(*m_tagContent);
+		if (!tagContent.Empty())
+		{
+			m_fileInfo->GetGroups()->push_back(std::move(tagContent));
+		}
 		m_tagContent.Clear();
 	}
 	else if (!strcmp("segment", name))
 	{
-		if (!m_fileInfo || !m_article || m_tagContent.Empty())
+		if (!m_fileInfo || !m_article || tagContent.Empty())
 		{
 			// error: bad nzb-file
 			return;
 		}
 
 		// Get the #text part
-		BString<1024> id("<%s>", *m_tagContent);
+		BString<1024> id("<%s>", *tagContent);
 		m_article->SetMessageId(id);
 		AddArticle(m_fileInfo.get(), std::move(m_article));
 	}
 	else if (!strcmp("meta", name) && m_hasPassword)
 	{
-		m_password = m_tagContent;
+		m_password = std::move(tagContent);
 	}
 }
 
 void NzbFile::Parse_Content(const char *buf, int len)
 {
-	m_tagContent.Append(buf, len);
+	if (len > 0)
+	{
+		m_tagContent.Append(buf, len);
+	}
 }
 
 void NzbFile::SAX_StartElement(NzbFile* file, const char *name, const char **atts)
@@ -777,44 +787,7 @@ void NzbFile::SAX_EndElement(NzbFile* file, const char *name)
 
 void NzbFile::SAX_characters(NzbFile* file, const char * xmlstr, int len)
 {
-	char* str = (char*)xmlstr;
-
-	// trim starting blanks
-	int off = 0;
-	for (int i = 0; i < len; i++)
-	{
-		char ch = str[i];
-		if (ch == ' ' || ch == 10 || ch == 13 || ch == 9)
-		{
-			off++;
-		}
-		else
-		{
-			break;
-		}
-	}
-
-	int newlen = len - off;
-
-	// trim ending blanks
-	for (int i = len - 1; i >= off; i--)
-	{
-		char ch = str[i];
-		if (ch == ' ' || ch == 10 || ch == 13 || ch == 9)
-		{
-			newlen--;
-		}
-		else
-		{
-			break;
-		}
-	}
-
-	if (newlen > 0)
-	{
-		// interpret tag content
-		file->Parse_Content(str + off, newlen);
-	}
+	file->Parse_Content(xmlstr, len);
 }
 
 void* NzbFile::SAX_getEntity(NzbFile* file, const char * name)
-- 
2.43.0


From a522979c4e750980845d5728ac4d442be01067ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:36 +0000
Subject: [PATCH 020/100] fix: content hash of nzb-files having files with same
 names

---
 daemon/queue/NzbFile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index c84751c..95fdba6 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -300,7 +300,13 @@ void NzbFile::CalcHashes()
 	std::sort(sortedFiles.begin(), sortedFiles.end(),
 		[](FileInfo* first, FileInfo* second)
 		{
-			return strcmp(first->GetFilename(), second->GetFilename()) > 0;
+			int cmp = strcmp(first->GetFilename(), second->GetFilename());
+			if (cmp == 0)
+			{
+				cmp = strcmp(first->GetArticles()->front()->GetMessageId(),
+					second->GetArticles()->front()->GetMessageId());
+			}
+			return cmp > 0;
 		});
 
 	uint32 fullContentHash = 0;
-- 
2.43.0


From 23418991aef7299637b1981c49155524eab3a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:36 +0000
Subject: [PATCH 021/100] fix: ampersands in subjects of nzb-files

---
 daemon/main/nzbget.h     |  1 +
 daemon/queue/NzbFile.cpp | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/daemon/main/nzbget.h b/daemon/main/nzbget.h
index df6fc63..c8f87a4 100644
--- a/daemon/main/nzbget.h
+++ b/daemon/main/nzbget.h
@@ -178,6 +178,7 @@ using namespace MSXML;
 
 #ifndef DISABLE_LIBXML2
 #include <libxml/parser.h>
+#include <libxml/parserInternals.h>
 #include <libxml/xmlreader.h>
 #include <libxml/xmlerror.h>
 #include <libxml/entities.h>
diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index 95fdba6..d8f3e9c 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -610,7 +610,18 @@ bool NzbFile::Parse()
 
 	m_ignoreNextError = false;
 
-	int ret = xmlSAXUserParseFile(&SAX_handler, this, m_fileName);
+	int ret = -1;
+	xmlParserCtxtPtr context = xmlCreateFileParserCtxt(m_fileName);
+	if (context)
+	{
+		*context->sax = SAX_handler;
+		context->userData = this;
+		// without this option ampersands in attributes are left encoded
+		xmlCtxtUseOptions(context, XML_PARSE_NOENT);
+		xmlParseDocument(context);
+		ret = context->wellFormed ? 0 : context->errNo != 0 ? context->errNo : -1;
+		xmlFreeParserCtxt(context);
+	}
 
 	if (ret != 0)
 	{
-- 
2.43.0


From 84e91a6e526c39b23f58e5895daf3373fccf8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:29 +0000
Subject: [PATCH 022/100] fix: file names consisting only of dots and spaces

---
 daemon/util/FileSystem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/util/FileSystem.cpp b/daemon/util/FileSystem.cpp
index c1c0526..afea40f 100644
--- a/daemon/util/FileSystem.cpp
+++ b/daemon/util/FileSystem.cpp
@@ -417,6 +417,12 @@ CString FileSystem::MakeValidFilename(const char* filename, bool allowSlashes)
 		result[len - 1] = '\0';
 	}
 
+	// a name consisting only of dots and spaces
+	if (*filename && result.Empty())
+	{
+		result = "_";
+	}
+
 	// check if the filename starts with a reserved device name.
 	// although these names are reserved only on Windows we adjust them on posix too,
 	// in a case the directory is accessed from windows via samba.
-- 
2.43.0


From 20f357ef363ae5b313a0a81d1ab5b751b607895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:29 +0000
Subject: [PATCH 023/100] fix: empty subjects in nzb-files

---
 daemon/queue/NzbFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/NzbFile.cpp b/daemon/queue/NzbFile.cpp
index d8f3e9c..29df92a 100644
--- a/daemon/queue/NzbFile.cpp
+++ b/daemon/queue/NzbFile.cpp
@@ -106,7 +106,7 @@ void NzbFile::ParseSubject(FileInfo* fileInfo, bool TryQuotes)
 {
 	// Example subject: some garbage "title" yEnc (10/99)
 
-	if (!fileInfo->GetSubject())
+	if (Util::EmptyStr(fileInfo->GetSubject()))
 	{
 		// Malformed file element without subject. We generate subject using internal element id.
 		fileInfo->SetSubject(CString::FormatStr("%d", fileInfo->GetId()));
-- 
2.43.0


From ac1b0b96396f005055f8da92a5fcfe347870553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 024/100] fix: long texts and line breaks in diskstate files

---
 daemon/queue/DiskState.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 89a0690..949dab7 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -45,10 +45,19 @@ int64 StateDiskFile::PrintLine(const char* format, ...)
 {
 	va_list ap;
 	va_start(ap, format);
-	BString<1024> str;
+	CString str;
 	int len = str.FormatV(format, ap);
 	va_end(ap);
 
+	// line breaks within the text would break the format of the file
+	for (char* p = str; *p; p++)
+	{
+		if (*p == '\n' || *p == '\r')
+		{
+			*p = ' ';
+		}
+	}
+
 	// replacing terminating <NULL> with <LF>
 	str[len++] = '\n';
 
-- 
2.43.0


From b4b05393a0b56c67d5b40fb7e5882e688f1bbd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 025/100] fix: duplicate mode and hint after loading of
 diskstate

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 949dab7..b9b2b34 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -826,7 +826,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 	}
 	nzbInfo->SetDupeMode((EDupeMode)dupeMode);
 	nzbInfo->SetDupeScore(dupeScore);
-	nzbInfo->SetDupeMode((EDupeMode)dupeHint);
+	nzbInfo->SetDupeHint((NzbInfo::EDupeHint)dupeHint);
 
 	if (formatVersion >= 48)
 	{
-- 
2.43.0


From 2c9cfefcf34884c5e2a921ff6a94a8429b84cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 026/100] fix: post-processing stage after loading of diskstate

---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index b9b2b34..1b0c572 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -698,7 +698,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 		{
 			postStage += 2;
 		}
-		nzbInfo->GetPostInfo()->SetStage((PostInfo::EStage)postStage);
+		nzbInfo->GetPostInfo()->SetStage((PostInfo::EStage)(postStage - 1));
 	}
 	nzbInfo->SetFeedId(feedId);
 
-- 
2.43.0


From d4fa4f8ed17b12e40df29176de0ea125752a8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 027/100] fix: long texts when loading diskstate files

---
 daemon/queue/DiskState.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 1b0c572..5b91586 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -853,8 +853,8 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 		int parFile = 0;
 		char* hash16k = nullptr;
 		char* parSetId = nullptr;
-		char filenameBuf[1024];
-		char origName[1024];
+		char filenameBuf[10240];
+		char origName[10240] = "";
 
 		if (formatVersion >= 49)
 		{
@@ -1102,7 +1102,7 @@ bool DiskState::LoadFile(FileInfo* fileInfo, bool fileSummary, bool articles)
 
 bool DiskState::LoadFileInfo(FileInfo* fileInfo, StateDiskFile& infile, int formatVersion, bool fileSummary, bool articles)
 {
-	char buf[1024];
+	char buf[10240];
 
 	if (!infile.ReadLine(buf, sizeof(buf))) goto error;
 	if (fileSummary) fileInfo->SetSubject(buf);
@@ -1256,7 +1256,7 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 	fileInfo->SetSuccessSize(Util::JoinInt64(High2, Low2));
 	fileInfo->SetFailedSize(Util::JoinInt64(High3, Low3));
 
-	char buf[1024];
+	char buf[10240];
 
 	if (formatVersion >= 4)
 	{
@@ -1384,7 +1384,7 @@ void DiskState::SaveDupInfo(DupInfo* dupInfo, StateDiskFile& outfile)
 
 bool DiskState::LoadDupInfo(DupInfo* dupInfo, StateDiskFile& infile, int formatVersion)
 {
-	char buf[1024];
+	char buf[10240];
 
 	int status;
 	uint32 High, Low;
@@ -1762,10 +1762,10 @@ bool DiskState::LoadFeedStatus(Feeds* feeds, StateDiskFile& infile, int formatVe
 	if (infile.ScanLine("%i", &size) != 1) goto error;
 	for (int i = 0; i < size; i++)
 	{
-		char url[1024];
+		char url[10240];
 		if (!infile.ReadLine(url, sizeof(url))) goto error;
 
-		char filter[1024];
+		char filter[10240];
 		if (formatVersion == 2)
 		{
 			if (!infile.ReadLine(filter, sizeof(filter))) goto error;
@@ -1826,7 +1826,7 @@ bool DiskState::LoadFeedHistory(FeedHistory* feedHistory, StateDiskFile& infile,
 		int r = infile.ScanLine("%i,%i", &status, &lastSeen);
 		if (r != 2) goto error;
 
-		char url[1024];
+		char url[10240];
 		if (!infile.ReadLine(url, sizeof(url))) goto error;
 
 		feedHistory->emplace_back(url, (FeedHistoryInfo::EStatus)(status), (time_t)(lastSeen));
@@ -2241,16 +2241,16 @@ bool DiskState::LoadServerInfo(Servers* servers, StateDiskFile& infile, int form
 	if (infile.ScanLine("%i", &size) != 1) goto error;
 	for (int i = 0; i < size; i++)
 	{
-		char name[1024];
+		char name[10240];
 		if (!infile.ReadLine(name, sizeof(name))) goto error;
 
-		char host[200];
+		char host[10240];
 		if (!infile.ReadLine(host, sizeof(host))) goto error;
 
 		int port;
 		if (infile.ScanLine("%i", &port) != 1) goto error;
 
-		char user[100];
+		char user[10240];
 		if (!infile.ReadLine(user, sizeof(user))) goto error;
 
 		std::unique_ptr<ServerRef> ref = std::make_unique<ServerRef>();
@@ -2471,7 +2471,7 @@ void DiskState::LoadNzbMessages(int nzbId, MessageList* messages)
 	}
 
 	int id = 0;
-	char line[1024];
+	char line[10240];
 	while (infile.ReadLine(line, sizeof(line)))
 	{
 		Util::TrimRight(line);
-- 
2.43.0


From 2d1a3c4e6a5490338a501c8f1c095d24d1efe96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 028/100] fix: article offsets above 4 GB in diskstate files

---
 daemon/queue/DiskState.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 5b91586..b009e66 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1217,7 +1217,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool c
 	outfile.PrintLine("%i", (int)fileInfo->GetArticles()->size());
 	for (ArticleInfo* articleInfo : fileInfo->GetArticles())
 	{
-		outfile.PrintLine("%i,%u,%i,%u", (int)articleInfo->GetStatus(), (uint32)articleInfo->GetSegmentOffset(),
+		outfile.PrintLine("%i,%lli,%i,%u", (int)articleInfo->GetStatus(), (long long)articleInfo->GetSegmentOffset(),
 			articleInfo->GetSegmentSize(), (uint32)articleInfo->GetCrc());
 	}
 
@@ -1297,9 +1297,10 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 
 		if (formatVersion >= 2)
 		{
-			uint32 segmentOffset, crc;
+			long long segmentOffset;
+			uint32 crc;
 			int segmentSize;
-			if (infile.ScanLine("%i,%u,%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
+			if (infile.ScanLine("%i,%lli,%i,%u", &statusInt, &segmentOffset, &segmentSize, &crc) != 4) goto error;
 			pa->SetSegmentOffset(segmentOffset);
 			pa->SetSegmentSize(segmentSize);
 			pa->SetCrc(crc);
-- 
2.43.0


From bec5d88849cced6e85ee84cb2592785b913a5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 029/100] fix: article states not matching the file

---
 daemon/queue/DiskState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index b009e66..1cbb6fc 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1291,6 +1291,7 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 		{
 			fileInfo->GetArticles()->push_back(std::make_unique<ArticleInfo>());
 		}
+		if (i >= (int)fileInfo->GetArticles()->size()) goto error;
 		std::unique_ptr<ArticleInfo>& pa = fileInfo->GetArticles()->at(i);
 
 		int statusInt;
-- 
2.43.0


From 57f2873e9d08770af67d1402ae2bcd03c1e928e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 030/100] fix: empty messages in item logs

---
 daemon/queue/DiskState.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 1cbb6fc..1c05229 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -2476,8 +2476,6 @@ void DiskState::LoadNzbMessages(int nzbId, MessageList* messages)
 	char line[10240];
 	while (infile.ReadLine(line, sizeof(line)))
 	{
-		Util::TrimRight(line);
-
 		// time (skip formatted time first)
 		char* p = strchr(line, '\t');
 		if (!p) goto exit;
@@ -2514,6 +2512,7 @@ void DiskState::LoadNzbMessages(int nzbId, MessageList* messages)
 		p = strchr(p + 1, '\t');
 		if (!p) goto exit;
 		char* text = p + 1;
+		Util::TrimRight(text);
 
 		messages->emplace_back(++id, kind, (time_t)time, text);
 	}
-- 
2.43.0


From 802d7839e12528a659c41cc9f35d63d232bb4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 031/100] fix: items which have left post-processing when
 loading progress

---
 daemon/queue/DiskState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 1c05229..2a28075 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -687,6 +687,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 	nzbInfo->SetPriority(priority);
 	nzbInfo->SetDeletePaused((bool)deletePaused);
 	nzbInfo->SetManyDupeFiles((bool)manyDupeFiles);
+	nzbInfo->LeavePostProcess();
 	if (postStage > 0)
 	{
 		nzbInfo->EnterPostProcess();
-- 
2.43.0


From 31832ec94379d6b2987eb817a4e0a34bd7e7d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:12 +0000
Subject: [PATCH 032/100] fix: write errors when saving diskstate

---
 daemon/queue/DiskState.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 2a28075..e6b3090 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -185,17 +185,28 @@ StateDiskFile* StateFile::BeginWrite()
 
 bool StateFile::FinishWrite()
 {
-	if (!m_transactional)
+	// data which could not be written must not replace the old file
+	bool ok = m_file.Flush() && !m_file.Error();
+	if (!ok)
+	{
+		error("Error saving diskstate: Could not write file %s: %s", *m_tempFilename,
+			*FileSystem::GetLastErrorMessage());
+	}
+
+	if (!m_transactional || !ok)
 	{
 		m_file.Close();
-		return true;
+		if (m_transactional)
+		{
+			FileSystem::DeleteFile(m_tempFilename);
+		}
+		return ok;
 	}
 
 	// flush file content before renaming
 	if (g_Options->GetFlushQueue())
 	{
 		debug("Flushing data for file %s", FileSystem::BaseFileName(m_tempFilename));
-		m_file.Flush();
 		CString errmsg;
 		if (!m_file.Sync(errmsg))
 		{
@@ -249,7 +260,7 @@ StateDiskFile* StateFile::BeginRead()
 		return nullptr;
 	}
 
-	char FileSignatur[128];
+	char FileSignatur[128] = "";
 	m_file.ReadLine(FileSignatur, sizeof(FileSignatur));
 	m_fileVersion = ParseFormatVersion(FileSignatur);
 	if (m_fileVersion > m_formatVersion)
-- 
2.43.0


From 2850ec18e4b216e8306dd6bb0ce822fecd9b7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:12 +0000
Subject: [PATCH 033/100] fix: incomplete temporary files taken as diskstate
 after a crash

---
 daemon/queue/DiskState.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index e6b3090..15ea73f 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -166,7 +166,12 @@ int StateFile::ParseFormatVersion(const char* formatSignature)
 
 bool StateFile::FileExists()
 {
+#ifdef WIN32
 	return FileSystem::FileExists(m_destFilename) || (m_transactional && FileSystem::FileExists(m_tempFilename));
+#else
+	// the dest-file is replaced at once, a temp-file on its own is incomplete
+	return FileSystem::FileExists(m_destFilename);
+#endif
 }
 
 StateDiskFile* StateFile::BeginWrite()
@@ -217,7 +222,10 @@ bool StateFile::FinishWrite()
 	m_file.Close();
 
 	// now rename to dest file name
+#ifdef WIN32
+	// an existing file can not be replaced by renaming
 	FileSystem::DeleteFile(m_destFilename);
+#endif
 	if (!FileSystem::MoveFile(m_tempFilename, m_destFilename))
 	{
 		error("Error saving diskstate: Could not rename file %s to %s: %s",
@@ -241,6 +249,7 @@ bool StateFile::FinishWrite()
 
 StateDiskFile* StateFile::BeginRead()
 {
+#ifdef WIN32
 	if (!FileSystem::FileExists(m_destFilename) && FileSystem::FileExists(m_tempFilename))
 	{
 		// disaster recovery: temp-file exists but the dest-file doesn't
@@ -252,6 +261,7 @@ StateDiskFile* StateFile::BeginRead()
 			return nullptr;
 		}
 	}
+#endif
 
 	if (!m_file.Open(m_destFilename, StateDiskFile::omRead))
 	{
-- 
2.43.0


From c4708248f63c903e4fb90d629d859dad3d278f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:41 +0000
Subject: [PATCH 034/100] fix: progress-file left over after saving of the
 queue

---
 daemon/queue/DiskState.cpp | 30 ++++++++++++++++++++++++------
 daemon/queue/DiskState.h   |  2 ++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 15ea73f..a72e3ce 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -318,6 +318,8 @@ bool DiskState::SaveDownloadQueue(DownloadQueue* downloadQueue, bool saveHistory
 		}
 	}
 
+	bool queueSaved = ok;
+
 	if (saveHistory)
 	{
 		StateFile stateFile("history", DISKSTATE_QUEUE_VERSION, true);
@@ -342,8 +344,11 @@ bool DiskState::SaveDownloadQueue(DownloadQueue* downloadQueue, bool saveHistory
 	}
 
 	// progress-file isn't needed after saving of full queue data
-	StateFile progressStateFile("progress", DISKSTATE_QUEUE_VERSION, true);
-	progressStateFile.Discard();
+	if (queueSaved)
+	{
+		StateFile progressStateFile("progress", DISKSTATE_QUEUE_VERSION, true);
+		progressStateFile.Discard();
+	}
 
 	return ok;
 }
@@ -354,6 +359,7 @@ bool DiskState::LoadDownloadQueue(DownloadQueue* downloadQueue, Servers* servers
 
 	bool ok = false;
 	int formatVersion = 0;
+	m_queueMark = 0;
 
 	{
 		StateFile stateFile("queue", DISKSTATE_QUEUE_VERSION, true);
@@ -492,7 +498,10 @@ void DiskState::SaveQueue(NzbList* queue, StateDiskFile& outfile)
 {
 	debug("Saving nzb list to disk");
 
-	outfile.PrintLine("%i", (int)queue->size());
+	// the mark is also saved in the progress-file to recognise the queue-file it belongs to
+	m_queueMark = std::max((long long)m_queueMark + 1, (long long)Util::CurrentTime());
+
+	outfile.PrintLine("%i,%lli", (int)queue->size(), (long long)m_queueMark);
 	for (NzbInfo* nzbInfo : queue)
 	{
 		SaveNzbInfo(nzbInfo, outfile);
@@ -505,7 +514,9 @@ bool DiskState::LoadQueue(NzbList* queue, Servers* servers, StateDiskFile& infil
 
 	// load nzb-infos
 	int size;
-	if (infile.ScanLine("%i", &size) != 1) goto error;
+	long long queueMark = 0;
+	if (infile.ScanLine("%i,%lli", &size, &queueMark) < 1) goto error;
+	m_queueMark = queueMark;
 	for (int i = 0; i < size; i++)
 	{
 		std::unique_ptr<NzbInfo> nzbInfo = std::make_unique<NzbInfo>();
@@ -524,7 +535,7 @@ void DiskState::SaveProgress(NzbList* queue, StateDiskFile& outfile, int changed
 {
 	debug("Saving nzb progress to disk");
 
-	outfile.PrintLine("%i", changedCount);
+	outfile.PrintLine("%i,%lli", changedCount, (long long)m_queueMark);
 	for (NzbInfo* nzbInfo : queue)
 	{
 		if (nzbInfo->GetChanged())
@@ -541,7 +552,14 @@ bool DiskState::LoadProgress(NzbList* queue, Servers* servers, StateDiskFile& in
 
 	// load nzb-infos
 	int size;
-	if (infile.ScanLine("%i", &size) != 1) goto error;
+	long long queueMark = 0;
+	if (infile.ScanLine("%i,%lli", &size, &queueMark) < 1) goto error;
+	if (queueMark != 0 && queueMark != m_queueMark)
+	{
+		// the program was interrupted after saving of the queue, which is newer than the progress-file
+		debug("Ignoring old progress-file");
+		return true;
+	}
 	for (int i = 0; i < size; i++)
 	{
 		int id;
diff --git a/daemon/queue/DiskState.h b/daemon/queue/DiskState.h
index feaec4a..f16f643 100644
--- a/daemon/queue/DiskState.h
+++ b/daemon/queue/DiskState.h
@@ -58,6 +58,8 @@ public:
 	void LoadNzbMessages(int nzbId, MessageList* messages);
 
 private:
+	int64 m_queueMark = 0;
+
 	bool SaveFileInfo(FileInfo* fileInfo, StateDiskFile& outfile, bool articles);
 	bool LoadFileInfo(FileInfo* fileInfo, StateDiskFile& outfile, int formatVersion, bool fileSummary, bool articles);
 	bool SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool completed);
-- 
2.43.0


From b9ef7a457d54d008eeb8ec0b383045957cb46cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 035/100] fix: file states damaged when saving is interrupted

---
 daemon/queue/DiskState.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index a72e3ce..dadf8ad 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -112,7 +112,7 @@ int StateDiskFile::ScanLine(const char* format, ...)
 class StateFile
 {
 public:
-	StateFile(const char* filename, int formatVersion, bool transactional);
+	StateFile(const char* filename, int formatVersion, bool transactional, bool flush = true);
 	void Discard();
 	bool FileExists();
 	StateDiskFile* BeginWrite();
@@ -126,6 +126,7 @@ private:
 	BString<1024> m_tempFilename;
 	int m_formatVersion;
 	bool m_transactional;
+	bool m_flush;
 	int m_fileVersion;
 	StateDiskFile m_file;
 
@@ -133,8 +134,8 @@ private:
 };
 
 
-StateFile::StateFile(const char* filename, int formatVersion, bool transactional) :
-	m_formatVersion(formatVersion), m_transactional(transactional)
+StateFile::StateFile(const char* filename, int formatVersion, bool transactional, bool flush) :
+	m_formatVersion(formatVersion), m_transactional(transactional), m_flush(flush)
 {
 	m_destFilename.Format("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, filename);
 	if (m_transactional)
@@ -209,7 +210,7 @@ bool StateFile::FinishWrite()
 	}
 
 	// flush file content before renaming
-	if (g_Options->GetFlushQueue())
+	if (m_flush && g_Options->GetFlushQueue())
 	{
 		debug("Flushing data for file %s", FileSystem::BaseFileName(m_tempFilename));
 		CString errmsg;
@@ -234,7 +235,7 @@ bool StateFile::FinishWrite()
 	}
 
 	// flush directory buffer after renaming
-	if (g_Options->GetFlushQueue())
+	if (m_flush && g_Options->GetFlushQueue())
 	{
 		debug("Flushing directory for file %s", FileSystem::BaseFileName(m_destFilename));
 		CString errmsg;
@@ -1071,7 +1072,7 @@ bool DiskState::SaveFile(FileInfo* fileInfo)
 	debug("Saving FileInfo %i to disk", fileInfo->GetId());
 
 	BString<100> filename("%i", fileInfo->GetId());
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true, false);
 
 	StateDiskFile* outfile = stateFile.BeginWrite();
 	if (!outfile)
@@ -1129,7 +1130,7 @@ bool DiskState::LoadFile(FileInfo* fileInfo, bool fileSummary, bool articles)
 	debug("Loading FileInfo %i from disk", fileInfo->GetId());
 
 	BString<100> filename("%i", fileInfo->GetId());
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true, false);
 
 	StateDiskFile* infile = stateFile.BeginRead();
 	if (!infile)
@@ -1226,7 +1227,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, bool completed)
 	debug("Saving FileState %i to disk", fileInfo->GetId());
 
 	BString<100> filename("%i%s", fileInfo->GetId(), completed ? "c" : "s");
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true, false);
 
 	StateDiskFile* outfile = stateFile.BeginWrite();
 	if (!outfile)
@@ -1234,7 +1235,7 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, bool completed)
 		return false;
 	}
 
-	return SaveFileState(fileInfo, *outfile, completed);
+	return SaveFileState(fileInfo, *outfile, completed) && stateFile.FinishWrite();
 }
 
 bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool completed)
@@ -1261,7 +1262,6 @@ bool DiskState::SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool c
 			articleInfo->GetSegmentSize(), (uint32)articleInfo->GetCrc());
 	}
 
-	outfile.Close();
 	return true;
 }
 
@@ -1270,7 +1270,7 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, bool complet
 	debug("Loading FileInfo %i from disk", fileInfo->GetId());
 
 	BString<100> filename("%i%s", fileInfo->GetId(), completed ? "c" : "s");
-	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, false);
+	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true, false);
 
 	StateDiskFile* infile = stateFile.BeginRead();
 	if (!infile)
@@ -1690,6 +1690,13 @@ void DiskState::CleanupQueueDir(DownloadQueue* downloadQueue)
 			del = !std::binary_search(fileIdList.begin(), fileIdList.end(), id);
 		}
 
+		// temporary file left after interrupted saving
+		const char* extension = strrchr(filename, '.');
+		if (!del && sscanf(filename, "%i", &id) == 1 && extension && !strcmp(extension, ".new"))
+		{
+			del = true;
+		}
+
 		if (!del && sscanf(filename, "n%i.log", &id) == 1)
 		{
 			del = !std::binary_search(nzbIdList.begin(), nzbIdList.end(), id);
-- 
2.43.0


From 780581b9ff936a4990d2c0303b895a718f5033b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 036/100] fix: file information reverted after a crash

---
 daemon/queue/DiskState.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index dadf8ad..b90c04f 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1071,6 +1071,9 @@ bool DiskState::SaveFile(FileInfo* fileInfo)
 {
 	debug("Saving FileInfo %i to disk", fileInfo->GetId());
 
+	// the summary made on last shutdown must not override the file information written now
+	DiscardQuickFileInfos();
+
 	BString<100> filename("%i", fileInfo->GetId());
 	StateFile stateFile(filename, DISKSTATE_FILE_VERSION, true, false);
 
-- 
2.43.0


From 957bafcf7ad156ba82f18e722e05c5178ee878dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 037/100] fix: progress of items lost after two crashes

---
 daemon/queue/DiskState.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index b90c04f..c74834d 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -574,6 +574,9 @@ bool DiskState::LoadProgress(NzbList* queue, Servers* servers, StateDiskFile& in
 		}
 
 		if (!LoadNzbInfo(nzbInfo, servers, infile, formatVersion)) goto error;
+
+		// must be saved again with the next progress-file, the queue-file is still old
+		nzbInfo->SetChanged(true);
 	}
 
 	return true;
-- 
2.43.0


From 045f79dd1ea67bdbcaaceb01c436e7cd39c74373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 038/100] fix: old progress-file taken for a new one

---
 daemon/queue/DiskState.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index c74834d..0d0bd1b 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -558,7 +558,9 @@ bool DiskState::LoadProgress(NzbList* queue, Servers* servers, StateDiskFile& in
 	if (queueMark != 0 && queueMark != m_queueMark)
 	{
 		// the program was interrupted after saving of the queue, which is newer than the progress-file
-		debug("Ignoring old progress-file");
+		debug("Deleting old progress-file");
+		infile.Close();
+		StateFile("progress", DISKSTATE_QUEUE_VERSION, true).Discard();
 		return true;
 	}
 	for (int i = 0; i < size; i++)
-- 
2.43.0


From 5c9be657d8c467c04f839e71f28dee2e575807f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 039/100] fix: special characters in post-processing parameters
 of append-call

---
 daemon/remote/XmlRpc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 0686f29..1030c50 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -2234,6 +2234,8 @@ void DownloadXmlCommand::Execute()
 				BuildErrorResponse(2, "Invalid parameter (Parameters)");
 				return;
 			}
+			DecodeStr(paramName);
+			DecodeStr(paramValue);
 			Params.SetParameter(paramName, paramValue);
 		}
 	}
-- 
2.43.0


From 9e4765c9ebb5be0308553e71dd11a4c326457b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 040/100] fix: repeated ids in edit-commands

---
 daemon/queue/QueueEditor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 8dc070d..87d363a 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -465,6 +465,9 @@ void QueueEditor::PrepareList(ItemList* itemList, IdList* idList,
 		offset = MAX_ID;
 	}
 
+	// IDs transmitted more than once must be processed only once
+	std::set<int> uniqueIds;
+
 	itemList->reserve(idList->size());
 	if ((offset != 0) &&
 		(action == DownloadQueue::eaFileMoveOffset || action == DownloadQueue::eaFileMoveTop || action == DownloadQueue::eaFileMoveBottom))
@@ -602,7 +605,7 @@ void QueueEditor::PrepareList(ItemList* itemList, IdList* idList,
 		//add IDs to list in order they were transmitted in command
 		for (int id : *idList)
 		{
-			if (minId <= id && id <= maxId)
+			if (minId <= id && id <= maxId && uniqueIds.insert(id).second)
 			{
 				FileInfo* fileInfo = FindFileInfo(id);
 				if (fileInfo)
@@ -633,7 +636,7 @@ void QueueEditor::PrepareList(ItemList* itemList, IdList* idList,
 		//add IDs to list in order they were transmitted in command
 		for (int id : *idList)
 		{
-			if (minId <= id && id <= maxId)
+			if (minId <= id && id <= maxId && uniqueIds.insert(id).second)
 			{
 				for (NzbInfo* nzbInfo : m_downloadQueue->GetQueue())
 				{
-- 
2.43.0


From c2e63c5ef409c25405ac89e13b7c8a0d32f285df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 041/100] fix: use of freed memory when merging groups

---
 daemon/queue/QueueCoordinator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 7e12f4c..ed0a89f 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1160,7 +1160,6 @@ bool QueueCoordinator::MergeQueueEntries(DownloadQueue* downloadQueue, NzbInfo*
 	}
 
 	// set new dest directory, new category and move downloaded files to new dest directory
-	srcNzbInfo->SetFilename(srcNzbInfo->GetFilename());
 	SetQueueEntryCategory(downloadQueue, srcNzbInfo, destNzbInfo->GetCategory());
 
 	// reattach file items to new NZBInfo-object
-- 
2.43.0


From 88814d8a2fb269df28fd41561fe80fcb78103429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 042/100] fix: result of merging groups

---
 daemon/queue/QueueEditor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 87d363a..32f810a 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -1013,7 +1013,7 @@ bool QueueEditor::MergeGroups(ItemList* itemList)
 		if (item.m_nzbInfo != destItem.m_nzbInfo)
 		{
 			debug("merge %s to %s", item.m_nzbInfo->GetFilename(), destItem.m_nzbInfo->GetFilename());
-			if (g_QueueCoordinator->MergeQueueEntries(m_downloadQueue, destItem.m_nzbInfo, item.m_nzbInfo))
+			if (!g_QueueCoordinator->MergeQueueEntries(m_downloadQueue, destItem.m_nzbInfo, item.m_nzbInfo))
 			{
 				ok = false;
 			}
-- 
2.43.0


From 2d71ab812c7dceb4bfd480f4ea7ec7439ec44d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 043/100] fix: sorting of unknown groups

---
 daemon/queue/QueueEditor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 32f810a..a3f2536 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -353,7 +353,7 @@ bool QueueEditor::InternEditList(ItemList* itemList,
 			return MergeGroups(itemList);
 
 		case DownloadQueue::eaGroupSort:
-			return SortGroups(itemList, args);
+			return (!itemList->empty() || !idList || idList->empty()) && SortGroups(itemList, args);
 
 		case DownloadQueue::eaGroupMoveAfter:
 		case DownloadQueue::eaGroupMoveBefore:
-- 
2.43.0


From 29c96f37ee5c791e740889569133bb730ddfd5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 044/100] fix: crash when splitting files of different groups

---
 daemon/queue/QueueCoordinator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index ed0a89f..dc1f46f 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1257,6 +1257,11 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		{
 			srcNzbInfo = fileInfo->GetNzbInfo();
 		}
+		if (fileInfo->GetNzbInfo() != srcNzbInfo)
+		{
+			error("Could not split %s. Files belong to different groups", fileInfo->GetFilename());
+			return false;
+		}
 	}
 
 	std::unique_ptr<NzbInfo> nzbInfo = std::make_unique<NzbInfo>();
-- 
2.43.0


From e0f451d576c4a9ea41afd2e4621ef58d710ce603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 045/100] fix: number of paused files after splitting of groups

---
 daemon/queue/QueueCoordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index dc1f46f..b7225ab 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1327,7 +1327,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			srcNzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() - 1);
 			srcNzbInfo->SetPausedSize(srcNzbInfo->GetPausedSize() - fileInfo->GetRemainingSize());
 
-			nzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() + 1);
+			nzbInfo->SetPausedFileCount(nzbInfo->GetPausedFileCount() + 1);
 			nzbInfo->SetPausedSize(nzbInfo->GetPausedSize() + fileInfo->GetRemainingSize());
 		}
 	}
-- 
2.43.0


From b251771371d54123ba0e567e376d7b8849c0dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 046/100] fix: size of missed articles when splitting groups

---
 daemon/queue/QueueCoordinator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index b7225ab..39c338e 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1291,6 +1291,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		srcNzbInfo->SetSize(srcNzbInfo->GetSize() - fileInfo->GetSize());
 		srcNzbInfo->SetRemainingSize(srcNzbInfo->GetRemainingSize() - fileInfo->GetRemainingSize());
 		srcNzbInfo->SetCurrentSuccessSize(srcNzbInfo->GetCurrentSuccessSize() - fileInfo->GetSuccessSize());
+		srcNzbInfo->SetFailedSize(srcNzbInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetCurrentFailedSize(srcNzbInfo->GetCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetTotalArticles(srcNzbInfo->GetTotalArticles() - fileInfo->GetTotalArticles());
 		srcNzbInfo->SetFailedArticles(srcNzbInfo->GetFailedArticles() - fileInfo->GetMissedArticles());
@@ -1302,6 +1303,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		nzbInfo->SetSize(nzbInfo->GetSize() + fileInfo->GetSize());
 		nzbInfo->SetRemainingSize(nzbInfo->GetRemainingSize() + fileInfo->GetRemainingSize());
 		nzbInfo->SetCurrentSuccessSize(nzbInfo->GetCurrentSuccessSize() + fileInfo->GetSuccessSize());
+		nzbInfo->SetFailedSize(nzbInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetCurrentFailedSize(nzbInfo->GetCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetTotalArticles(nzbInfo->GetTotalArticles() + fileInfo->GetTotalArticles());
 		nzbInfo->SetFailedArticles(nzbInfo->GetFailedArticles() + fileInfo->GetMissedArticles());
@@ -1313,11 +1315,13 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		{
 			srcNzbInfo->SetParSize(srcNzbInfo->GetParSize() - fileInfo->GetSize());
 			srcNzbInfo->SetParCurrentSuccessSize(srcNzbInfo->GetParCurrentSuccessSize() - fileInfo->GetSuccessSize());
+			srcNzbInfo->SetParFailedSize(srcNzbInfo->GetParFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetParCurrentFailedSize(srcNzbInfo->GetParCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetRemainingParCount(srcNzbInfo->GetRemainingParCount() - 1);
 
 			nzbInfo->SetParSize(nzbInfo->GetParSize() + fileInfo->GetSize());
 			nzbInfo->SetParCurrentSuccessSize(nzbInfo->GetParCurrentSuccessSize() + fileInfo->GetSuccessSize());
+			nzbInfo->SetParFailedSize(nzbInfo->GetParFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetParCurrentFailedSize(nzbInfo->GetParCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetRemainingParCount(nzbInfo->GetRemainingParCount() + 1);
 		}
-- 
2.43.0


From 16ae37031afaa1b7c70f4f7abc1b1cbddca8b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 047/100] fix: empty names and names with special characters
 when splitting groups

---
 daemon/queue/QueueCoordinator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 39c338e..2a45fc6 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1239,6 +1239,12 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		return false;
 	}
 
+	if (Util::EmptyStr(name))
+	{
+		error("Could not split %s. The new name cannot be empty", fileList->front()->GetFilename());
+		return false;
+	}
+
 	NzbInfo* srcNzbInfo = nullptr;
 
 	for (FileInfo* fileInfo : fileList)
@@ -1267,7 +1273,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 	std::unique_ptr<NzbInfo> nzbInfo = std::make_unique<NzbInfo>();
 
 	nzbInfo->SetFilename(srcNzbInfo->GetFilename());
-	nzbInfo->SetName(name);
+	nzbInfo->SetName(NzbInfo::MakeNiceNzbName(name, false));
 	nzbInfo->SetCategory(srcNzbInfo->GetCategory());
 	nzbInfo->SetFullContentHash(0);
 	nzbInfo->SetFilteredContentHash(0);
-- 
2.43.0


From 89454c99be03b44b97687c25a13e97025829b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 048/100] fix: empty names of downloads

---
 daemon/queue/DownloadInfo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/queue/DownloadInfo.cpp b/daemon/queue/DownloadInfo.cpp
index a1e3ed5..b78090f 100644
--- a/daemon/queue/DownloadInfo.cpp
+++ b/daemon/queue/DownloadInfo.cpp
@@ -203,6 +203,11 @@ CString NzbInfo::MakeNiceNzbName(const char * nzbFilename, bool removeExt)
 		if (p && !strcasecmp(p, ".nzb")) *p = '\0';
 	}
 	CString validname = FileSystem::MakeValidFilename(nicename);
+	if (validname.Empty())
+	{
+		// the name is used as name of directory and must not be empty
+		validname = "_";
+	}
 	return validname;
 }
 
-- 
2.43.0


From 05234050eb91bb4644daeb87bc2f7ff9a3160810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 049/100] fix: adding of nzb-files with names beginning with a
 dot

---
 daemon/queue/Scanner.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/queue/Scanner.cpp b/daemon/queue/Scanner.cpp
index 12b1943..2b26134 100644
--- a/daemon/queue/Scanner.cpp
+++ b/daemon/queue/Scanner.cpp
@@ -550,6 +550,12 @@ Scanner::EAddStatus Scanner::AddExternalFile(const char* nzbName, const char* ca
 		validNzbName.Append(".nzb");
 	}
 
+	if (validNzbName.Empty() || validNzbName[0] == '.')
+	{
+		// hidden files are skipped when scanning the directory
+		validNzbName = CString::FormatStr("_%s", *validNzbName);
+	}
+
 	BString<1024> scanFileName("%s%c%s", g_Options->GetNzbDir(), PATH_SEPARATOR, *validNzbName);
 
 	char *ext = strrchr(validNzbName, '.');
-- 
2.43.0


From 9020d8d6900812fcf1980396544912709be15eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 050/100] fix: nzb-files added while still being written

---
 daemon/queue/Scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/Scanner.cpp b/daemon/queue/Scanner.cpp
index 2b26134..8365a0c 100644
--- a/daemon/queue/Scanner.cpp
+++ b/daemon/queue/Scanner.cpp
@@ -218,11 +218,11 @@ bool Scanner::CanProcessFile(const char* fullFilename, bool checkStat)
 			}
 			else
 			{
-				fileData.SetSize(size);
 				if (fileData.GetSize() != size)
 				{
 					fileData.SetLastChange(current);
 				}
+				fileData.SetSize(size);
 			}
 			break;
 		}
-- 
2.43.0


From 278280b5f1fbbd8dfde7a9ab935aaef5833e6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 051/100] fix: settings of added nzb-file lost when the
 directory is being scanned

---
 daemon/queue/Scanner.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/queue/Scanner.cpp b/daemon/queue/Scanner.cpp
index 8365a0c..5467307 100644
--- a/daemon/queue/Scanner.cpp
+++ b/daemon/queue/Scanner.cpp
@@ -606,6 +606,10 @@ Scanner::EAddStatus Scanner::AddExternalFile(const char* nzbName, const char* ca
 		m_queueList.emplace_back(scanFileName, nzbName, useCategory, priority,
 			dupeKey, dupeScore, dupeMode, parameters, addTop, addPaused, urlInfo,
 			&addStatus, nzbId);
+
+		// the next scan must process the file, otherwise the data queued above were lost
+		m_scanning = true;
+		m_requestedNzbDirScan = true;
 	}
 
 	ScanNzbDir(true);
-- 
2.43.0


From 8fe832bd06a007d90458582b7d23fa7d23cac713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:42 +0000
Subject: [PATCH 052/100] fix: sorting with patterns matching no groups

---
 daemon/queue/QueueEditor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index a3f2536..8704cb4 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -323,7 +323,10 @@ bool QueueEditor::EditList(DownloadQueue* downloadQueue, IdList* idList, NameLis
 		ok = BuildIdListFromNameList(idList, nameList, matchMode, action);
 	}
 
-	ok = ok && (InternEditList(nullptr, idList, action, args) || matchMode == DownloadQueue::mmRegEx);
+	// an empty list means "all items" for some actions but it must not if no names were matched
+	bool nothingFound = nameList && idList->empty();
+
+	ok = ok && ((!nothingFound && InternEditList(nullptr, idList, action, args)) || matchMode == DownloadQueue::mmRegEx);
 
 	m_downloadQueue->Save();
 
-- 
2.43.0


From a5d67750abb8fd7dbc76274dadd6394eec5567dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 053/100] fix: endless retries on unreachable optional servers
 if ArticleInterval is 0

---
 daemon/nntp/ArticleDownloader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nntp/ArticleDownloader.cpp b/daemon/nntp/ArticleDownloader.cpp
index 876dc9c..71178ae 100644
--- a/daemon/nntp/ArticleDownloader.cpp
+++ b/daemon/nntp/ArticleDownloader.cpp
@@ -205,7 +205,7 @@ void ArticleDownloader::Run()
 
 		if (!wantServer && (connected || retentionFailure || optionalBlocked))
 		{
-			if (!optionalBlocked)
+			if (!optionalBlocked || !g_ServerPool->IsServerBlocked(lastServer))
 			{
 				failedServers.push_back(lastServer);
 			}
-- 
2.43.0


From ddd6f385a27a50c5555627176df492ad8fa255cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 054/100] fix: items lost from queue and history if saving is
 interrupted between both

---
 daemon/queue/DiskState.cpp        | 122 +++++++++++++++++++++---------
 daemon/queue/DiskState.h          |   1 +
 daemon/queue/QueueCoordinator.cpp |   6 +-
 3 files changed, 90 insertions(+), 39 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 0d0bd1b..f27cf18 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -27,6 +27,7 @@
 #include "FileSystem.h"
 
 static const char* FORMATVERSION_SIGNATURE = "nzbget diskstate file version ";
+static const char* NEW_HISTORY_FILENAME = "history.next";
 const int DISKSTATE_QUEUE_VERSION = 62;
 const int DISKSTATE_FILE_VERSION = 6;
 const int DISKSTATE_STATS_VERSION = 3;
@@ -116,10 +117,12 @@ public:
 	void Discard();
 	bool FileExists();
 	StateDiskFile* BeginWrite();
-	bool FinishWrite();
+	bool FinishWrite(bool replace = true);
+	bool Replace(const char* newFilename);
 	StateDiskFile* BeginRead();
 	int GetFileVersion() { return m_fileVersion; }
 	const char* GetDestFilename() { return m_destFilename; }
+	const char* GetTempFilename() { return m_tempFilename; }
 
 private:
 	BString<1024> m_destFilename;
@@ -189,7 +192,10 @@ StateDiskFile* StateFile::BeginWrite()
 	return &m_file;
 }
 
-bool StateFile::FinishWrite()
+/* Finish writing of the temp-file and put it in place of the dest-file;
+ * the latter can be left to a later call of "Replace".
+ */
+bool StateFile::FinishWrite(bool replace)
 {
 	// data which could not be written must not replace the old file
 	bool ok = m_file.Flush() && !m_file.Error();
@@ -222,15 +228,20 @@ bool StateFile::FinishWrite()
 
 	m_file.Close();
 
+	return !replace || Replace(m_tempFilename);
+}
+
+bool StateFile::Replace(const char* newFilename)
+{
 	// now rename to dest file name
 #ifdef WIN32
 	// an existing file can not be replaced by renaming
 	FileSystem::DeleteFile(m_destFilename);
 #endif
-	if (!FileSystem::MoveFile(m_tempFilename, m_destFilename))
+	if (!FileSystem::MoveFile(newFilename, m_destFilename))
 	{
 		error("Error saving diskstate: Could not rename file %s to %s: %s",
-			*m_tempFilename, *m_destFilename, *FileSystem::GetLastErrorMessage());
+			newFilename, *m_destFilename, *FileSystem::GetLastErrorMessage());
 		return false;
 	}
 
@@ -295,69 +306,102 @@ bool DiskState::SaveDownloadQueue(DownloadQueue* downloadQueue, bool saveHistory
 {
 	debug("Saving queue and history to disk");
 
-	bool ok = true;
+	if (!FinishSaving())
+	{
+		return false;
+	}
 
+	StateFile queueFile("queue", DISKSTATE_QUEUE_VERSION, true);
+	if (saveHistory || !downloadQueue->GetQueue()->empty())
 	{
-		StateFile stateFile("queue", DISKSTATE_QUEUE_VERSION, true);
-		if (!downloadQueue->GetQueue()->empty())
+		StateDiskFile* outfile = queueFile.BeginWrite();
+		if (!outfile)
 		{
-			StateDiskFile* outfile = stateFile.BeginWrite();
-			if (!outfile)
-			{
-				return false;
-			}
+			return false;
+		}
 
-			// save nzb-infos
-			SaveQueue(downloadQueue->GetQueue(), *outfile);
+		// save nzb-infos
+		SaveQueue(downloadQueue->GetQueue(), *outfile);
 
-			// now rename to dest file name
-			ok = stateFile.FinishWrite();
-		}
-		else
+		// now rename to dest file name
+		if (!queueFile.FinishWrite(!saveHistory))
 		{
-			stateFile.Discard();
+			return false;
 		}
 	}
 
-	bool queueSaved = ok;
-
 	if (saveHistory)
 	{
-		StateFile stateFile("history", DISKSTATE_QUEUE_VERSION, true);
-		if (!downloadQueue->GetHistory()->empty())
+		// items are moved between queue and history, therefore both files must be replaced together:
+		// after the new queue-file is complete the existence of the new history-file means that
+		// both new files are valid; replacing interrupted from now on is finished later.
+		StateFile historyFile(NEW_HISTORY_FILENAME, DISKSTATE_QUEUE_VERSION, true);
+		StateDiskFile* outfile = historyFile.BeginWrite();
+		if (outfile)
 		{
-			StateDiskFile* outfile = stateFile.BeginWrite();
-			if (!outfile)
-			{
-				return false;
-			}
-
 			// save history
 			SaveHistory(downloadQueue->GetHistory(), *outfile);
+		}
 
-			// now rename to dest file name
-			ok &= stateFile.FinishWrite();
+		if (!outfile || !historyFile.FinishWrite())
+		{
+			FileSystem::DeleteFile(queueFile.GetTempFilename());
+			return false;
 		}
-		else
+
+		if (!FinishSaving())
 		{
-			stateFile.Discard();
+			return false;
+		}
+
+		if (downloadQueue->GetHistory()->empty())
+		{
+			StateFile("history", DISKSTATE_QUEUE_VERSION, true).Discard();
 		}
 	}
 
+	if (downloadQueue->GetQueue()->empty())
+	{
+		queueFile.Discard();
+	}
+
 	// progress-file isn't needed after saving of full queue data
-	if (queueSaved)
+	StateFile progressStateFile("progress", DISKSTATE_QUEUE_VERSION, true);
+	progressStateFile.Discard();
+
+	return true;
+}
+
+/* Finish (possibly interrupted) replacing of files "queue" and "history" with the new ones.
+ */
+bool DiskState::FinishSaving()
+{
+	StateFile newHistoryFile(NEW_HISTORY_FILENAME, DISKSTATE_QUEUE_VERSION, true);
+	if (!FileSystem::FileExists(newHistoryFile.GetDestFilename()))
 	{
-		StateFile progressStateFile("progress", DISKSTATE_QUEUE_VERSION, true);
-		progressStateFile.Discard();
+		return true;
 	}
 
-	return ok;
+	// the new queue-file goes first, it's gone if that was already done
+	StateFile queueFile("queue", DISKSTATE_QUEUE_VERSION, true);
+	if (FileSystem::FileExists(queueFile.GetTempFilename()) && !queueFile.Replace(queueFile.GetTempFilename()))
+	{
+		return false;
+	}
+
+	StateFile historyFile("history", DISKSTATE_QUEUE_VERSION, true);
+	return historyFile.Replace(newHistoryFile.GetDestFilename());
 }
 
 bool DiskState::LoadDownloadQueue(DownloadQueue* downloadQueue, Servers* servers)
 {
 	debug("Loading queue from disk");
 
+	if (!FinishSaving())
+	{
+		return false;
+	}
+
 	bool ok = false;
 	int formatVersion = 0;
 	m_queueMark = 0;
@@ -1541,6 +1585,9 @@ void DiskState::DiscardDownloadQueue()
 	BString<1024> fullFilename("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, "queue");
 	FileSystem::DeleteFile(fullFilename);
 
+	fullFilename.Format("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, NEW_HISTORY_FILENAME);
+	FileSystem::DeleteFile(fullFilename);
+
 	fullFilename.Format("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, "history");
 	FileSystem::DeleteFile(fullFilename);
 
@@ -1578,6 +1625,7 @@ bool DiskState::DownloadQueueExists()
 	debug("Checking if a saved queue exists on disk");
 
 	return FileSystem::FileExists(BString<1024>("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, "queue")) ||
+		FileSystem::FileExists(BString<1024>("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, NEW_HISTORY_FILENAME)) ||
 		FileSystem::FileExists(BString<1024>("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, "history"));
 }
 
diff --git a/daemon/queue/DiskState.h b/daemon/queue/DiskState.h
index f16f643..a8cb3c9 100644
--- a/daemon/queue/DiskState.h
+++ b/daemon/queue/DiskState.h
@@ -64,6 +64,7 @@ private:
 	bool LoadFileInfo(FileInfo* fileInfo, StateDiskFile& outfile, int formatVersion, bool fileSummary, bool articles);
 	bool SaveFileState(FileInfo* fileInfo, StateDiskFile& outfile, bool completed);
 	bool LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFile& infile, int formatVersion, bool completed);
+	bool FinishSaving();
 	void SaveQueue(NzbList* queue, StateDiskFile& outfile);
 	bool LoadQueue(NzbList* queue, Servers* servers, StateDiskFile& infile, int formatVersion);
 	void SaveProgress(NzbList* queue, StateDiskFile& outfile, int changedCount);
diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 2a45fc6..7f77068 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -61,7 +61,10 @@ void QueueCoordinator::CoordinatorDownloadQueue::Save()
 
 	if (g_Options->GetServerMode())
 	{
-		g_DiskState->SaveDownloadQueue(this, m_historyChanged);
+		if (g_DiskState->SaveDownloadQueue(this, m_historyChanged))
+		{
+			m_historyChanged = false;
+		}
 		m_stateChanged = true;
 	}
 
@@ -71,7 +74,6 @@ void QueueCoordinator::CoordinatorDownloadQueue::Save()
 	}
 
 	m_wantSave = false;
-	m_historyChanged = false;
 
 	// queue has changed, time to wake up if in standby
 	m_owner->WakeUp();
-- 
2.43.0


From cb5e64a7481e1433f668514950215b3865534904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:02 +0000
Subject: [PATCH 055/100] fix: items never completed if interrupted after
 completing of their last file

---
 daemon/queue/QueueCoordinator.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 7f77068..47c10cf 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -815,8 +815,11 @@ void QueueCoordinator::DeleteDownloader(DownloadQueue* downloadQueue,
 	if (deleteFileObj)
 	{
 		DeleteFileInfo(downloadQueue, fileInfo, fileCompleted);
-		nzbInfo->SetChanged(true);
-		downloadQueue->SaveChanged();
+		if (!fileCompleted)
+		{
+			nzbInfo->SetChanged(true);
+			downloadQueue->SaveChanged();
+		}
 	}
 }
 
@@ -850,7 +853,10 @@ void QueueCoordinator::DeleteFileInfo(DownloadQueue* downloadQueue, FileInfo* fi
 
 	if (g_Options->GetServerMode())
 	{
-		g_DiskState->DiscardFile(fileInfo->GetId(), fileStatus == CompletedFile::cfSuccess || (fileDeleted && !parking), true, false);
+		if (!completed)
+		{
+			g_DiskState->DiscardFile(fileInfo->GetId(), fileStatus == CompletedFile::cfSuccess || (fileDeleted && !parking), true, false);
+		}
 		if (fileStatus == CompletedFile::cfPartial && (completed || parking))
 		{
 			g_DiskState->SaveFileState(fileInfo, true);
@@ -891,6 +897,19 @@ void QueueCoordinator::DeleteFileInfo(DownloadQueue* downloadQueue, FileInfo* fi
 		downloadQueue, nzbInfo, fileInfo };
 	downloadQueue->Notify(&aspect);
 
+	if (completed)
+	{
+		// the file must be saved as completed before discarding,
+		// the item could never be completed if interrupted in between
+		nzbInfo->SetChanged(true);
+		downloadQueue->SaveChanged();
+
+		if (g_Options->GetServerMode())
+		{
+			g_DiskState->DiscardFile(fileInfo->GetId(), fileStatus == CompletedFile::cfSuccess || (fileDeleted && !parking), true, false);
+		}
+	}
+
 	// now can destroy FileInfo
 	srcFileInfo.reset();
 }
-- 
2.43.0


From 2dabd6e7a047841b90ee1b3175d222e04d6b6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:58 +0000
Subject: [PATCH 056/100] fix: scheduler tasks acting on the wrong server or
 feed if names begin with digits

---
 daemon/main/Scheduler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/main/Scheduler.cpp b/daemon/main/Scheduler.cpp
index a2e2f7b..f4b2b3a 100644
--- a/daemon/main/Scheduler.cpp
+++ b/daemon/main/Scheduler.cpp
@@ -287,7 +287,8 @@ void Scheduler::EditServer(bool active, const char* serverList)
 	Tokenizer tok(serverList, ",;");
 	while (const char* serverRef = tok.Next())
 	{
-		int id = atoi(serverRef);
+		// names may begin with digits
+		int id = serverRef[strspn(serverRef, "0123456789")] ? 0 : atoi(serverRef);
 		for (NewsServer* server : g_ServerPool->GetServers())
 		{
 			if ((id > 0 && server->GetId() == id) ||
@@ -316,7 +317,8 @@ void Scheduler::FetchFeed(const char* feedList)
 	Tokenizer tok(feedList, ",;");
 	while (const char* feedRef = tok.Next())
 	{
-		int id = atoi(feedRef);
+		// names may begin with digits
+		int id = feedRef[strspn(feedRef, "0123456789")] ? 0 : atoi(feedRef);
 		for (FeedInfo* feed : g_FeedCoordinator->GetFeeds())
 		{
 			if (feed->GetId() == id ||
-- 
2.43.0


From 66a3627a87db7214b9e86dbb6549a22cdca6bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 057/100] fix: memory corruption in statistics if the clock is
 beyond the year 2038

---
 daemon/nntp/StatMeter.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 737406d..57ebbdf 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -31,10 +31,10 @@ static const int DAYS_IN_TWENTY_YEARS = 366*20;
 
 void ServerVolume::CalcSlots(time_t locCurTime)
 {
-	m_secSlot = (int)locCurTime % 60;
-	m_minSlot = ((int)locCurTime / 60) % 60;
-	m_hourSlot = ((int)locCurTime % 86400) / 3600;
-	int daysSince1970 = (int)locCurTime / 86400;
+	m_secSlot = (int)(locCurTime % 60);
+	m_minSlot = (int)(locCurTime / 60 % 60);
+	m_hourSlot = (int)(locCurTime % 86400 / 3600);
+	int daysSince1970 = (int)(locCurTime / 86400);
 	m_daySlot = daysSince1970 - DAYS_UP_TO_2013_JAN_1 + 1;
 	if (0 <= m_daySlot && m_daySlot < DAYS_IN_TWENTY_YEARS)
 	{
@@ -71,11 +71,11 @@ void ServerVolume::AddData(int bytes)
 		// clear seconds/minutes/hours slots if necessary
 		// also handle the backwards changes of system clock
 
-		int totalDelta = (int)(locCurTime - locDataTime);
+		int64 totalDelta = locCurTime - locDataTime;
 		int deltaSign = totalDelta >= 0 ? 1 : -1;
-		totalDelta = abs(totalDelta);
+		totalDelta = std::min<int64>(std::abs(totalDelta), 60 * 60 * 24);
 
-		int secDelta = totalDelta;
+		int secDelta = (int)totalDelta;
 		if (deltaSign < 0) secDelta++;
 		if (secDelta >= 60) secDelta = 60;
 		for (int i = 0; i < secDelta; i++)
@@ -86,7 +86,7 @@ void ServerVolume::AddData(int bytes)
 			m_bytesPerSeconds[nulSlot] = 0;
 		}
 
-		int minDelta = totalDelta / 60;
+		int minDelta = (int)(totalDelta / 60);
 		if (deltaSign < 0) minDelta++;
 		if (abs(minDelta) >= 60) minDelta = 60;
 		if (minDelta == 0 && m_minSlot != lastMinSlot) minDelta = 1;
@@ -98,7 +98,7 @@ void ServerVolume::AddData(int bytes)
 			m_bytesPerMinutes[nulSlot] = 0;
 		}
 
-		int hourDelta = totalDelta / (60 * 60);
+		int hourDelta = (int)(totalDelta / (60 * 60));
 		if (deltaSign < 0) hourDelta++;
 		if (hourDelta >= 24) hourDelta = 24;
 		if (hourDelta == 0 && m_hourSlot != lastHourSlot) hourDelta = 1;
-- 
2.43.0


From 3e1a38f9c4eeb85809c50cb50c56137ce8676624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 058/100] fix: volumes assigned to wrong days if the clock is
 set back before the first day

---
 daemon/nntp/StatMeter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 57ebbdf..25f34ae 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -39,10 +39,16 @@ void ServerVolume::CalcSlots(time_t locCurTime)
 	if (0 <= m_daySlot && m_daySlot < DAYS_IN_TWENTY_YEARS)
 	{
 		int curDay = daysSince1970;
-		if (m_firstDay == 0 || m_firstDay > curDay)
+		if (m_firstDay == 0)
 		{
 			m_firstDay = curDay;
 		}
+		else if (m_firstDay > curDay)
+		{
+			// clock was changed backwards, keep the volumes of days recorded already
+			m_bytesPerDays.insert(m_bytesPerDays.begin(), m_firstDay - curDay, 0);
+			m_firstDay = curDay;
+		}
 		m_daySlot = curDay - m_firstDay;
 		if (m_daySlot + 1 > (int)m_bytesPerDays.size())
 		{
-- 
2.43.0


From 8b7e69f2e555237ca69cd372a62b83a3b40c2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 059/100] fix: crash if the clock is set back before the first
 day of statistics

---
 daemon/nntp/StatMeter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 25f34ae..5a020c4 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -498,7 +498,7 @@ void StatMeter::CalcQuotaUsage(int64& monthBytes, int64& dayBytes)
 	int daySlot = (int)(locTime / 86400) - totalVolume.GetFirstDay();
 
 	dayBytes = 0;
-	if (daySlot < (int)totalVolume.BytesPerDays()->size())
+	if (0 <= daySlot && daySlot < (int)totalVolume.BytesPerDays()->size())
 	{
 		dayBytes = totalVolume.BytesPerDays()->at(daySlot);
 	}
-- 
2.43.0


From 86e6bf7653fadd86b59edb71c2c30a322ace8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:28 +0000
Subject: [PATCH 060/100] fix: outdated minutes and hours in volume statistics

---
 daemon/nntp/StatMeter.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 5a020c4..75a9a09 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -67,9 +67,6 @@ void ServerVolume::AddData(int bytes)
 	time_t locCurTime = curTime + g_WorkState->GetLocalTimeOffset();
 	time_t locDataTime = m_dataTime + g_WorkState->GetLocalTimeOffset();
 
-	int lastMinSlot = m_minSlot;
-	int lastHourSlot = m_hourSlot;
-
 	CalcSlots(locCurTime);
 
 	if (locCurTime != locDataTime)
@@ -79,7 +76,7 @@ void ServerVolume::AddData(int bytes)
 
 		int64 totalDelta = locCurTime - locDataTime;
 		int deltaSign = totalDelta >= 0 ? 1 : -1;
-		totalDelta = std::min<int64>(std::abs(totalDelta), 60 * 60 * 24);
+		totalDelta = std::min<int64>(std::abs(totalDelta), 60);
 
 		int secDelta = (int)totalDelta;
 		if (deltaSign < 0) secDelta++;
@@ -92,10 +89,9 @@ void ServerVolume::AddData(int bytes)
 			m_bytesPerSeconds[nulSlot] = 0;
 		}
 
-		int minDelta = (int)(totalDelta / 60);
-		if (deltaSign < 0) minDelta++;
-		if (abs(minDelta) >= 60) minDelta = 60;
-		if (minDelta == 0 && m_minSlot != lastMinSlot) minDelta = 1;
+		int64 minBorders = std::abs(locCurTime / 60 - locDataTime / 60);
+		int minDelta = (int)std::min<int64>(minBorders, 60);
+		if (deltaSign < 0 && minDelta < 60) minDelta++;
 		for (int i = 0; i < minDelta; i++)
 		{
 			int nulSlot = m_minSlot - i * deltaSign;
@@ -104,10 +100,9 @@ void ServerVolume::AddData(int bytes)
 			m_bytesPerMinutes[nulSlot] = 0;
 		}
 
-		int hourDelta = (int)(totalDelta / (60 * 60));
-		if (deltaSign < 0) hourDelta++;
-		if (hourDelta >= 24) hourDelta = 24;
-		if (hourDelta == 0 && m_hourSlot != lastHourSlot) hourDelta = 1;
+		int64 hourBorders = std::abs(locCurTime / 3600 - locDataTime / 3600);
+		int hourDelta = (int)std::min<int64>(hourBorders, 24);
+		if (deltaSign < 0 && hourDelta < 24) hourDelta++;
 		for (int i = 0; i < hourDelta; i++)
 		{
 			int nulSlot = m_hourSlot - i * deltaSign;
-- 
2.43.0


From 5724577f843414162ac63fb4ae9908e1ebbb1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:50 +0000
Subject: [PATCH 061/100] fix: memory corruption in statistics if the clock is
 not set and the time zone is west of Greenwich

---
 daemon/nntp/StatMeter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/nntp/StatMeter.cpp b/daemon/nntp/StatMeter.cpp
index 75a9a09..e7cb4c9 100644
--- a/daemon/nntp/StatMeter.cpp
+++ b/daemon/nntp/StatMeter.cpp
@@ -31,6 +31,9 @@ static const int DAYS_IN_TWENTY_YEARS = 366*20;
 
 void ServerVolume::CalcSlots(time_t locCurTime)
 {
+	// the local time may be negative if the clock isn't set
+	locCurTime = std::max<time_t>(locCurTime, 0);
+
 	m_secSlot = (int)(locCurTime % 60);
 	m_minSlot = (int)(locCurTime / 60 % 60);
 	m_hourSlot = (int)(locCurTime % 86400 / 3600);
-- 
2.43.0


From 46b51ae8e88b4de4eb51da8af3239a8b7c87a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 062/100] fix: reading beyond lists of names on invalid values
 of ParCheck and FileNaming

---
 daemon/main/Options.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index cc86e3b..f71caed 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -768,7 +768,7 @@ void Options::InitOptions()
 
 	const char* ParCheckNames[] = { "auto", "always", "force", "manual" };
 	const int ParCheckValues[] = { pcAuto, pcAlways, pcForce, pcManual };
-	const int ParCheckCount = 6;
+	const int ParCheckCount = 4;
 	m_parCheck = (EParCheck)ParseEnumValue(OPTION_PARCHECK, ParCheckCount, ParCheckNames, ParCheckValues);
 
 	const char* ParScanNames[] = { "limited", "extended", "full", "dupe" };
@@ -783,7 +783,7 @@ void Options::InitOptions()
 
 	const char* FileNamingNames[] = { "auto", "article", "nzb" };
 	const int FileNamingValues[] = { nfAuto, nfArticle, nfNzb };
-	const int FileNamingCount = 4;
+	const int FileNamingCount = 3;
 	m_fileNaming = (EFileNaming)ParseEnumValue(OPTION_FILENAMING, FileNamingCount, FileNamingNames, FileNamingValues);
 
 	const char* HealthCheckNames[] = { "pause", "delete", "park", "none" };
-- 
2.43.0


From 84717fbd1257fb2038d06ab13ee62ed857c8fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 063/100] fix: hang at start if options refer to themselves,
 and variables not expanded after an unknown one

---
 daemon/main/Options.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index f71caed..45d45ed 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -904,27 +904,33 @@ void Options::SetOption(const char* optname, const char* value)
 	optEntry->SetLineNo(m_configLine);
 
 	// expand variables
-	while (const char* dollar = strstr(curvalue, "${"))
+	// values of variables are already expanded and unknown variables are kept
+	int pos = 0;
+	while (const char* dollar = curvalue ? strstr(curvalue + pos, "${") : nullptr)
 	{
 		const char* end = strchr(dollar, '}');
-		if (end)
+		if (!end)
+		{
+			break;
+		}
+
+		pos = (int)(dollar - curvalue);
+		int varlen = (int)(end - dollar - 2);
+		CString variable;
+		if (varlen > 0)
 		{
-			int varlen = (int)(end - dollar - 2);
-			BString<100> variable;
 			variable.Set(dollar + 2, varlen);
-			const char* varvalue = GetOption(variable);
-			if (varvalue)
-			{
-				curvalue.Replace((int)(dollar - curvalue), 2 + varlen + 1, varvalue);
-			}
-			else
-			{
-				break;
-			}
+		}
+		const char* varvalue = varlen > 0 ? GetOption(variable) : nullptr;
+		if (varvalue)
+		{
+			int valuelen = strlen(varvalue);
+			curvalue.Replace(pos, 2 + varlen + 1, varvalue);
+			pos += valuelen;
 		}
 		else
 		{
-			break;
+			pos += 2;
 		}
 	}
 
-- 
2.43.0


From 811fb655e254ab9c19d3c200aadfe74d9ea073ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 064/100] fix: last character lost if configuration file
 consists of one line without line break

---
 daemon/main/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index 45d45ed..43a1c9d 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -1431,7 +1431,7 @@ void Options::LoadConfigFile()
 	}
 
 	m_configLine = 0;
-	int bufLen = (int)FileSystem::FileSize(m_configFilename) + 1;
+	int bufLen = (int)FileSystem::FileSize(m_configFilename) + 3;
 	CharBuffer buf(bufLen);
 
 	int line = 0;
-- 
2.43.0


From 2ee962fa84d040a6de72c170160754dd0fd0a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 065/100] fix: crash on obsolete command line options if
 started without configuration file

---
 daemon/main/Options.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index 43a1c9d..1b58097 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -387,8 +387,8 @@ void Options::ConfigWarn(const char* msg, ...)
 	tmp2[1024-1] = '\0';
 	va_end(ap);
 
-	printf("%s(%i): %s\n", FileSystem::BaseFileName(m_configFilename), m_configLine, tmp2);
-	warn("%s(%i): %s", FileSystem::BaseFileName(m_configFilename), m_configLine, tmp2);
+	printf("%s(%i): %s\n", m_configFilename ? FileSystem::BaseFileName(m_configFilename) : "<noconfig>", m_configLine, tmp2);
+	warn("%s(%i): %s", m_configFilename ? FileSystem::BaseFileName(m_configFilename) : "<noconfig>", m_configLine, tmp2);
 }
 
 void Options::LocateOptionSrcPos(const char *optionName)
-- 
2.43.0


From b22d12a9dda2050948a811690dce70ded4fb838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 066/100] fix: numbers out of range in options not reported

---
 daemon/main/Options.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/main/Options.cpp b/daemon/main/Options.cpp
index 1b58097..f1885a2 100644
--- a/daemon/main/Options.cpp
+++ b/daemon/main/Options.cpp
@@ -859,9 +859,11 @@ int Options::ParseIntValue(const char* OptName, int base)
 	}
 
 	char *endptr;
-	int val = strtol(optEntry->GetValue(), &endptr, base);
+	errno = 0;
+	long longVal = strtol(optEntry->GetValue(), &endptr, base);
+	int val = (int)longVal;
 
-	if (endptr && *endptr != '\0')
+	if ((endptr && *endptr != '\0') || errno == ERANGE || longVal != val)
 	{
 		m_configLine = optEntry->GetLineNo();
 		ConfigError("Invalid value for option \"%s\": \"%s\"", OptName, optEntry->GetValue());
-- 
2.43.0


From 39fbc91cba155cb0ca19ccf9e3d245dca7770bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 067/100] fix: new option lost when saving if the configuration
 file ends with a comment without line break

---
 daemon/extension/ScriptConfig.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/extension/ScriptConfig.cpp b/daemon/extension/ScriptConfig.cpp
index bd51af2..a46f25e 100644
--- a/daemon/extension/ScriptConfig.cpp
+++ b/daemon/extension/ScriptConfig.cpp
@@ -131,6 +131,11 @@ bool ScriptConfig::SaveConfig(Options::OptEntries* optEntries)
 		else
 		{
 			infile.Print("%s", *buf);
+			if (!buf.Empty() && buf[buf.Length() - 1] != '\n')
+			{
+				// last line of the file
+				infile.Print("\n");
+			}
 		}
 	}
 
-- 
2.43.0


From 5edc068cb10fb29f9b05f9cd6a87ee922e5da0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 068/100] fix: endless loop when loading an empty configuration
 file through API

---
 daemon/extension/ScriptConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/extension/ScriptConfig.cpp b/daemon/extension/ScriptConfig.cpp
index a46f25e..973153b 100644
--- a/daemon/extension/ScriptConfig.cpp
+++ b/daemon/extension/ScriptConfig.cpp
@@ -53,7 +53,7 @@ bool ScriptConfig::LoadConfig(Options::OptEntries* optEntries)
 		return false;
 	}
 
-	int fileLen = (int)FileSystem::FileSize(g_Options->GetConfigFilename());
+	int fileLen = (int)FileSystem::FileSize(g_Options->GetConfigFilename()) + 1;
 	CString buf;
 	buf.Reserve(fileLen);
 
-- 
2.43.0


From 0610a7ef7018175529f6830962cde805583e92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 069/100] fix: reading of uninitialized memory if web server
 closes the connection without a response

---
 daemon/connect/WebDownloader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/connect/WebDownloader.cpp b/daemon/connect/WebDownloader.cpp
index 0fa5798..f290711 100644
--- a/daemon/connect/WebDownloader.cpp
+++ b/daemon/connect/WebDownloader.cpp
@@ -288,7 +288,7 @@ WebDownloader::EStatus WebDownloader::DownloadHeaders()
 
 		if (firstLine)
 		{
-			Status = CheckResponse(lineBuf);
+			Status = CheckResponse(line);
 			if (Status != adRunning)
 			{
 				break;
-- 
2.43.0


From 91bca8cf4c298e5a8fb6fbba0555d56f8a89b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 070/100] fix: truncated compressed web responses treated as
 complete

---
 daemon/connect/WebDownloader.cpp | 9 ++++++---
 daemon/connect/WebDownloader.h   | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/daemon/connect/WebDownloader.cpp b/daemon/connect/WebDownloader.cpp
index f290711..b3b112e 100644
--- a/daemon/connect/WebDownloader.cpp
+++ b/daemon/connect/WebDownloader.cpp
@@ -339,6 +339,7 @@ WebDownloader::EStatus WebDownloader::DownloadBody()
 
 #ifndef DISABLE_GZIP
 	m_gUnzipStream.reset();
+	m_gzipFinished = false;
 	if (m_gzip)
 	{
 		m_gUnzipStream = std::make_unique<GUnzipStream>(1024*10);
@@ -362,7 +363,7 @@ WebDownloader::EStatus WebDownloader::DownloadBody()
 		// Connection closed or timeout?
 		if (len <= 0)
 		{
-			if (len == 0 && m_contentLen == -1 && writtenLen > 0)
+			if (len == 0 && m_contentLen == -1 && writtenLen > 0 && !m_gzip)
 			{
 				end = true;
 				break;
@@ -385,9 +386,10 @@ WebDownloader::EStatus WebDownloader::DownloadBody()
 		writtenLen += len;
 
 		//detect end of file
-		if (writtenLen == m_contentLen || (m_contentLen == -1 && m_gzip && m_confirmedLength))
+		if (writtenLen == m_contentLen || (m_contentLen == -1 && m_gzip && m_gzipFinished))
 		{
-			end = true;
+			// compressed data may be truncated even if the length of response matches
+			end = !m_gzip || m_gzipFinished;
 			break;
 		}
 	}
@@ -603,6 +605,7 @@ bool WebDownloader::Write(void* buffer, int len)
 			if (gZStatus == GUnzipStream::zlFinished)
 			{
 				m_confirmedLength = true;
+				m_gzipFinished = true;
 				return true;
 			}
 		}
diff --git a/daemon/connect/WebDownloader.h b/daemon/connect/WebDownloader.h
index 0166d16..56410ee 100644
--- a/daemon/connect/WebDownloader.h
+++ b/daemon/connect/WebDownloader.h
@@ -83,6 +83,7 @@ private:
 	bool m_redirecting;
 	bool m_redirected;
 	bool m_gzip;
+	bool m_gzipFinished = false;
 	bool m_retry = true;
 #ifndef DISABLE_GZIP
 	std::unique_ptr<GUnzipStream> m_gUnzipStream;
-- 
2.43.0


From b1034ed4d3f1a10e6d720d1e909e5e0f18c662b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 071/100] fix: requests broken by long URLs

---
 daemon/connect/WebDownloader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daemon/connect/WebDownloader.cpp b/daemon/connect/WebDownloader.cpp
index b3b112e..05c6c36 100644
--- a/daemon/connect/WebDownloader.cpp
+++ b/daemon/connect/WebDownloader.cpp
@@ -245,7 +245,7 @@ WebDownloader::EStatus WebDownloader::CreateConnection(URL *url)
 void WebDownloader::SendHeaders(URL *url)
 {
 	// retrieve file
-	m_connection->WriteLine(BString<1024>("GET %s HTTP/1.0\r\n", url->GetResource()));
+	m_connection->WriteLine(CString::FormatStr("GET %s HTTP/1.0\r\n", url->GetResource()));
 	m_connection->WriteLine(BString<1024>("User-Agent: nzbget/%s\r\n", Util::VersionRevision()));
 
 	if ((!strcasecmp(url->GetProtocol(), "http") && (url->GetPort() == 80 || url->GetPort() == 0)) ||
@@ -526,13 +526,13 @@ void WebDownloader::ParseFilename(const char* contentDisposition)
 void WebDownloader::ParseRedirect(const char* location)
 {
 	const char* newLocation = location;
-	BString<1024> urlBuf;
+	CString urlBuf;
 	URL newUrl(newLocation);
 	if (!newUrl.IsValid())
 	{
 		// redirect within host
 
-		BString<1024> resource;
+		CString resource;
 		URL oldUrl(m_url);
 
 		if (*location == '/')
-- 
2.43.0


From bb4c05b4f396ee5d58f2b8fcd5855f8a2a1fb0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 072/100] fix: redirects within host not followed if the new
 location has an URL as parameter

---
 daemon/connect/WebDownloader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/connect/WebDownloader.cpp b/daemon/connect/WebDownloader.cpp
index 05c6c36..5638d9c 100644
--- a/daemon/connect/WebDownloader.cpp
+++ b/daemon/connect/WebDownloader.cpp
@@ -528,7 +528,8 @@ void WebDownloader::ParseRedirect(const char* location)
 	const char* newLocation = location;
 	CString urlBuf;
 	URL newUrl(newLocation);
-	if (!newUrl.IsValid())
+	size_t schemeLen = newUrl.IsValid() ? strlen(newUrl.GetProtocol()) : 0;
+	if (schemeLen == 0 || strspn(newUrl.GetProtocol(), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.") != schemeLen)
 	{
 		// redirect within host
 
-- 
2.43.0


From fbe0830e7490053095aadf5c887157af5230193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 073/100] fix: headers of web responses without white space
 after colon or in other letter case ignored

---
 daemon/connect/WebDownloader.cpp | 26 ++++++++++++++++++--------
 daemon/queue/UrlCoordinator.cpp  |  6 +++---
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/daemon/connect/WebDownloader.cpp b/daemon/connect/WebDownloader.cpp
index 5638d9c..f904f91 100644
--- a/daemon/connect/WebDownloader.cpp
+++ b/daemon/connect/WebDownloader.cpp
@@ -466,22 +466,32 @@ WebDownloader::EStatus WebDownloader::CheckResponse(const char* response)
 
 void WebDownloader::ProcessHeader(const char* line)
 {
-	if (!strncasecmp(line, "Content-Length: ", 16))
+	const char* value = strchr(line, ':');
+	if (!value)
 	{
-		m_contentLen = atoi(line + 16);
+		return;
+	}
+
+	// white space around the value is optional
+	value++;
+	while (*value == ' ' || *value == '\t') value++;
+
+	if (!strncasecmp(line, "Content-Length:", 15))
+	{
+		m_contentLen = atoi(value);
 		m_confirmedLength = true;
 	}
-	else if (!strncasecmp(line, "Content-Encoding: gzip", 22))
+	else if (!strncasecmp(line, "Content-Encoding:", 17))
 	{
-		m_gzip = true;
+		m_gzip = !strncasecmp(value, "gzip", 4);
 	}
-	else if (!strncasecmp(line, "Content-Disposition: ", 21))
+	else if (!strncasecmp(line, "Content-Disposition:", 20))
 	{
-		ParseFilename(line);
+		ParseFilename(value);
 	}
-	else if (m_redirecting && !strncasecmp(line, "Location: ", 10))
+	else if (m_redirecting && !strncasecmp(line, "Location:", 9))
 	{
-		ParseRedirect(line + 10);
+		ParseRedirect(value);
 		m_redirected = true;
 	}
 }
diff --git a/daemon/queue/UrlCoordinator.cpp b/daemon/queue/UrlCoordinator.cpp
index a3780f0..d1edb93 100644
--- a/daemon/queue/UrlCoordinator.cpp
+++ b/daemon/queue/UrlCoordinator.cpp
@@ -34,13 +34,13 @@ void UrlDownloader::ProcessHeader(const char* line)
 {
 	WebDownloader::ProcessHeader(line);
 
-	if (!strncmp(line, "X-DNZB-Category:", 16))
+	if (!strncasecmp(line, "X-DNZB-Category:", 16))
 	{
 		m_category = Util::Trim(CString(line + 16));
 
 		debug("Category: %s", *m_category);
 	}
-	else if (!strncmp(line, "X-DNZB-", 7))
+	else if (!strncasecmp(line, "X-DNZB-", 7))
 	{
 		CString modLine = line;
 		char* value = strchr(modLine, ':');
@@ -48,7 +48,7 @@ void UrlDownloader::ProcessHeader(const char* line)
 		{
 			*value = '\0';
 			value++;
-			while (*value == ' ') value++;
+			while (*value == ' ' || *value == '\t') value++;
 			Util::Trim(value);
 
 			debug("X-DNZB: %s", *modLine);
-- 
2.43.0


From c9421e7691d6a1ad3d878defd6c7631ec8c474b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 074/100] fix: wrong names of fetched files if other parameters
 follow the name, memory access error if the name is empty

---
 daemon/connect/WebDownloader.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/daemon/connect/WebDownloader.cpp b/daemon/connect/WebDownloader.cpp
index f904f91..bc10dcb 100644
--- a/daemon/connect/WebDownloader.cpp
+++ b/daemon/connect/WebDownloader.cpp
@@ -520,14 +520,25 @@ void WebDownloader::ParseFilename(const char* contentDisposition)
 
 	BString<1024> fname = p;
 
-	char *pe = fname + strlen(fname) - 1;
-	while ((*pe == ' ' || *pe == '\n' || *pe == '\r' || *pe == ';') && pe > fname) {
-		*pe = '\0';
-		pe--;
+	if (*p != '"')
+	{
+		// other parameters may follow
+		char* semicolon = strchr(fname, ';');
+		if (semicolon) *semicolon = '\0';
+	}
+
+	for (int len = strlen(fname); len > 0 && strchr(" \n\r;", fname[len - 1]); len--)
+	{
+		fname[len - 1] = '\0';
 	}
 
 	WebUtil::HttpUnquote(fname);
 
+	if (fname.Empty())
+	{
+		return;
+	}
+
 	m_originalFilename = FileSystem::BaseFileName(fname);
 
 	debug("OriginalFilename: %s", *m_originalFilename);
-- 
2.43.0


From cdb7a1c6020dd062bad94fa05739c529f157d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:17 +0000
Subject: [PATCH 075/100] fix: queue overwritten or items duplicated if a
 request arrives before the queue is loaded

---
 daemon/queue/DownloadInfo.h    |  2 +-
 daemon/remote/RemoteServer.cpp | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DownloadInfo.h b/daemon/queue/DownloadInfo.h
index 128986d..a03155f 100644
--- a/daemon/queue/DownloadInfo.h
+++ b/daemon/queue/DownloadInfo.h
@@ -1026,7 +1026,7 @@ public:
 
 protected:
 	DownloadQueue() {}
-	static void Init(DownloadQueue* globalInstance) { g_DownloadQueue = globalInstance; }
+	static void Init(DownloadQueue* globalInstance) { g_DownloadQueue = globalInstance; g_Loaded = false; }
 	static void Final() { g_DownloadQueue = nullptr; }
 	static void Loaded() { g_Loaded = true; }
 
diff --git a/daemon/remote/RemoteServer.cpp b/daemon/remote/RemoteServer.cpp
index ebe4c9b..5044b66 100644
--- a/daemon/remote/RemoteServer.cpp
+++ b/daemon/remote/RemoteServer.cpp
@@ -26,6 +26,8 @@
 #include "Log.h"
 #include "Options.h"
 #include "FileSystem.h"
+#include "DownloadInfo.h"
+#include "Util.h"
 
 //*****************************************************************
 // RemoteServer
@@ -196,6 +198,17 @@ void RequestProcessor::Execute()
 	}
 #endif
 
+	// The queue must not be read or changed until it's loaded,
+	// saving it would overwrite the stored queue
+	while (!DownloadQueue::IsLoaded())
+	{
+		if (IsStopped())
+		{
+			return;
+		}
+		Util::Sleep(20);
+	}
+
 	// Read the first 4 bytes to determine request type
 	uint32 signature = 0;
 	if (!m_connection->Recv((char*)&signature, 4))
-- 
2.43.0


From 8eacc84e913d7b4399f72a0303a0074d5e0e02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:27 +0000
Subject: [PATCH 076/100] fix: fetched files named after an earlier failed
 response

---
 daemon/connect/WebDownloader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/connect/WebDownloader.cpp b/daemon/connect/WebDownloader.cpp
index bc10dcb..36821ee 100644
--- a/daemon/connect/WebDownloader.cpp
+++ b/daemon/connect/WebDownloader.cpp
@@ -277,6 +277,7 @@ WebDownloader::EStatus WebDownloader::DownloadHeaders()
 	m_gzip = false;
 	m_redirecting = false;
 	m_redirected = false;
+	m_originalFilename = nullptr;
 
 	// Headers
 	while (!IsStopped())
-- 
2.43.0


From 231e1d8345808e8f9a8623f7f1d3dda18f377662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:59 +0000
Subject: [PATCH 077/100] fix: partially downloaded files lost after merging,
 renaming or changing category of items and after restarts with direct write,
 completed files lost when merging

---
 daemon/nntp/ArticleWriter.cpp     | 57 +++++++++++++++++++++++++++++++
 daemon/nntp/ArticleWriter.h       |  1 +
 daemon/queue/DiskState.cpp        | 23 +++++++++++++
 daemon/queue/QueueCoordinator.cpp |  8 ++++-
 4 files changed, 88 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 60dd782..804e36b 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -691,8 +691,61 @@ void ArticleWriter::FlushCache()
 		(float)(flushedSize / 1024.0 / 1024.0), *m_infoName);
 }
 
+/*
+ * Moves partially downloaded files (direct write mode) to new destination.
+ * After a program restart they are expected in the directory of their item.
+ */
+void ArticleWriter::MovePartialFiles(NzbInfo* nzbInfo, const char* oldDestDir)
+{
+	for (FileInfo* fileInfo : nzbInfo->GetFileList())
+	{
+		bool retrying = fileInfo->GetForceDirectWrite() || fileInfo->GetPartialState() == FileInfo::psCompleted;
+		BString<1024> tempName("%i.out.tmp", fileInfo->GetId());
+		const char* name = retrying ? fileInfo->GetFilename() : *tempName;
+		BString<1024> oldFileName("%s%c%s", oldDestDir, PATH_SEPARATOR, name);
+		BString<1024> newFileName("%s%c%s", nzbInfo->GetDestDir(), PATH_SEPARATOR, name);
+
+		// files being written are moved on their completion
+		if (fileInfo->GetActiveDownloads() > 0 || !strcmp(oldFileName, newFileName) ||
+			!FileSystem::FileExists(oldFileName) || FileSystem::FileExists(newFileName))
+		{
+			continue;
+		}
+
+		{
+			Guard contentGuard = g_ArticleCache->GuardContent();
+			if (fileInfo->GetCachedArticles() > 0 || fileInfo->GetFlushLocked())
+			{
+				continue;
+			}
+		}
+
+		CString errmsg;
+		if (!FileSystem::ForceDirectories(nzbInfo->GetDestDir(), errmsg))
+		{
+			nzbInfo->PrintMessage(Message::mkError, "Could not create directory %s: %s", nzbInfo->GetDestDir(), *errmsg);
+			return;
+		}
+
+		detail("Moving file %s to %s", *oldFileName, *newFileName);
+		if (!FileSystem::MoveFile(oldFileName, newFileName))
+		{
+			nzbInfo->PrintMessage(Message::mkError, "Could not move file %s to %s: %s",
+				*oldFileName, *newFileName, *FileSystem::GetLastErrorMessage());
+			continue;
+		}
+
+		if (fileInfo->GetOutputFilename())
+		{
+			fileInfo->SetOutputFilename(newFileName);
+		}
+	}
+}
+
 bool ArticleWriter::MoveCompletedFiles(NzbInfo* nzbInfo, const char* oldDestDir)
 {
+	MovePartialFiles(nzbInfo, oldDestDir);
+
 	if (nzbInfo->GetCompletedFiles()->empty())
 	{
 		return true;
@@ -724,6 +777,10 @@ bool ArticleWriter::MoveCompletedFiles(NzbInfo* nzbInfo, const char* oldDestDir)
 				nzbInfo->PrintMessage(Message::mkError, "Could not move file %s to %s: %s",
 					*oldFileName, *newFileName, *FileSystem::GetLastErrorMessage());
 			}
+			else
+			{
+				completedFile.SetFilename(FileSystem::BaseFileName(newFileName));
+			}
 		}
 	}
 
diff --git a/daemon/nntp/ArticleWriter.h b/daemon/nntp/ArticleWriter.h
index a556e46..cb3b8a8 100644
--- a/daemon/nntp/ArticleWriter.h
+++ b/daemon/nntp/ArticleWriter.h
@@ -58,6 +58,7 @@ public:
 	bool GetDuplicate() { return m_duplicate; }
 	void CompleteFileParts();
 	static bool MoveCompletedFiles(NzbInfo* nzbInfo, const char* oldDestDir);
+	static void MovePartialFiles(NzbInfo* nzbInfo, const char* oldDestDir);
 	void FlushCache();
 
 private:
diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index f27cf18..f449114 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -2086,6 +2086,29 @@ bool DiskState::LoadAllFileStates(DownloadQueue* downloadQueue, Servers* servers
 						if (fileInfo->GetId() == id)
 						{
 							if (!LoadFileState(fileInfo, servers, suffix == 'c')) goto error;
+							if (suffix == 's' && g_Options->GetDirectWrite() && fileInfo->GetSuccessArticles() > 0 &&
+								!FileSystem::FileExists(BString<1024>("%s%c%i.out.tmp",
+									nzbInfo->GetDestDir(), PATH_SEPARATOR, fileInfo->GetId())))
+							{
+								// downloaded articles are gone, have to download them again
+								fileInfo->GetArticles()->clear();
+								fileInfo->GetServerStats()->clear();
+								fileInfo->SetSuccessArticles(0);
+								fileInfo->SetFailedArticles(0);
+								fileInfo->SetCompletedArticles(0);
+								fileInfo->SetSuccessSize(0);
+								fileInfo->SetFailedSize(0);
+								fileInfo->SetRemainingSize(fileInfo->GetSize() - fileInfo->GetMissedSize());
+								BString<1024> fullFilename("%s%c%s", g_Options->GetQueueDir(), PATH_SEPARATOR, filename);
+								FileSystem::DeleteFile(fullFilename);
+								goto next;
+							}
+							if (suffix == 's' && g_Options->GetDirectWrite() && fileInfo->GetSuccessArticles() > 0)
+							{
+								fileInfo->SetOutputFilename(BString<1024>("%s%c%i.out.tmp",
+									nzbInfo->GetDestDir(), PATH_SEPARATOR, fileInfo->GetId()));
+								fileInfo->SetOutputInitialized(true);
+							}
 							fileInfo->GetArticles()->clear();
 							fileInfo->SetPartialState(suffix == 'c' ? FileInfo::psCompleted : FileInfo::psPartial);
 							goto next;
diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 47c10cf..5f260d1 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1181,7 +1181,13 @@ bool QueueCoordinator::MergeQueueEntries(DownloadQueue* downloadQueue, NzbInfo*
 	}
 
 	// set new dest directory, new category and move downloaded files to new dest directory
-	SetQueueEntryCategory(downloadQueue, srcNzbInfo, destNzbInfo->GetCategory());
+	BString<1024> oldDestDir = srcNzbInfo->GetDestDir();
+	srcNzbInfo->SetCategory(destNzbInfo->GetCategory());
+	srcNzbInfo->SetDestDir(destNzbInfo->GetDestDir());
+	if (strcmp(srcNzbInfo->GetDestDir(), oldDestDir))
+	{
+		ArticleWriter::MoveCompletedFiles(srcNzbInfo, oldDestDir);
+	}
 
 	// reattach file items to new NZBInfo-object
 	for (std::unique_ptr<FileInfo>& fileInfo : *srcNzbInfo->GetFileList())
-- 
2.43.0


From 698696ab06c9154e1e2edaf15396edf2bd40b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 078/100] fix: passwords shown to restricted user via multicall

---
 daemon/remote/XmlRpc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 1030c50..3e748d1 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -470,6 +470,9 @@ void XmlRpcProcessor::MutliCall()
 
 		std::unique_ptr<XmlCommand> command = CreateCommand(methodName);
 		command->SetRequest(requestPtr);
+		command->SetProtocol(m_protocol);
+		command->SetHttpMethod(m_httpMethod);
+		command->SetUserAccess(m_userAccess);
 		m_safeMethod |= command->IsSafeMethod();
 		command->Execute();
 
-- 
2.43.0


From 1021e8aa9d975d1381d5abdf09dde37cd0985a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 079/100] fix: reading beyond user name and password of binary
 requests

---
 daemon/remote/BinRpc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/remote/BinRpc.cpp b/daemon/remote/BinRpc.cpp
index 64af08e..00d37b5 100644
--- a/daemon/remote/BinRpc.cpp
+++ b/daemon/remote/BinRpc.cpp
@@ -176,6 +176,9 @@ void BinRpcProcessor::Execute()
 		return;
 	}
 
+	m_messageBase.m_username[sizeof(m_messageBase.m_username) - 1] = '\0';
+	m_messageBase.m_password[sizeof(m_messageBase.m_password) - 1] = '\0';
+
 	if ((strlen(g_Options->GetControlUsername()) > 0 && strcmp(m_messageBase.m_username, g_Options->GetControlUsername())) ||
 		strcmp(m_messageBase.m_password, g_Options->GetControlPassword()))
 	{
-- 
2.43.0


From 37a34db0847ec179ff93513f9d64df66fdb6525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 080/100] fix: content of unauthorized requests interpreted as
 next request on kept-alive connections, no answer to requests without content

---
 daemon/remote/WebServer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index 8db12ce..e50a415 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -86,6 +86,8 @@ void WebProcessor::Execute()
 	if (m_httpMethod == hmPost && m_contentLen <= 0)
 	{
 		error("Invalid-request: content length is 0");
+		m_keepAlive = false;
+		SendErrorResponse(ERR_HTTP_BAD_REQUEST, false);
 		return;
 	}
 
@@ -102,6 +104,11 @@ void WebProcessor::Execute()
 
 	if ((!g_Options->GetFormAuth() || m_rpcRequest) && !m_authorized)
 	{
+		if (m_httpMethod == hmPost)
+		{
+			// the request content remains unread
+			m_keepAlive = false;
+		}
 		SendAuthResponse();
 		return;
 	}
@@ -115,6 +122,7 @@ void WebProcessor::Execute()
 		if (!m_connection->Recv(m_request, m_contentLen))
 		{
 			error("Invalid-request: could not read data");
+			m_keepAlive = false;
 			return;
 		}
 		debug("Request=%s", *m_request);
-- 
2.43.0


From 27ffcc0c4a9a8f39303f66cffca8d79f3fac748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:43 +0000
Subject: [PATCH 081/100] fix: long lines of web requests interpreted as
 several lines

---
 daemon/remote/RemoteServer.cpp |  9 ++++++++-
 daemon/remote/WebServer.cpp    | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/daemon/remote/RemoteServer.cpp b/daemon/remote/RemoteServer.cpp
index 5044b66..303705f 100644
--- a/daemon/remote/RemoteServer.cpp
+++ b/daemon/remote/RemoteServer.cpp
@@ -254,7 +254,8 @@ bool RequestProcessor::ServWebRequest(const char* signature)
 {
 	// HTTP request received
 	char buffer[1024];
-	if (!m_connection->ReadLine(buffer, sizeof(buffer), nullptr))
+	int len = 0;
+	if (!m_connection->ReadLine(buffer, sizeof(buffer), &len))
 	{
 		return false;
 	}
@@ -276,6 +277,12 @@ bool RequestProcessor::ServWebRequest(const char* signature)
 		return false;
 	}
 
+	if (buffer[len - 1] != '\n')
+	{
+		warn("Request received from %s is too long", m_connection->GetRemoteAddr());
+		return false;
+	}
+
 	if (char* p = strchr(url, ' '))
 	{
 		*p = '\0';
diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index e50a415..b2d601c 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -138,8 +138,18 @@ void WebProcessor::ParseHeaders()
 	// reading http header
 	char buffer[1024];
 	m_contentLen = 0;
-	while (char* p = m_connection->ReadLine(buffer, sizeof(buffer), nullptr))
+	bool lineComplete = true;
+	int len = 0;
+	while (char* p = m_connection->ReadLine(buffer, sizeof(buffer), &len))
 	{
+		bool lineStart = lineComplete;
+		lineComplete = p[len - 1] == '\n';
+		if (!lineStart)
+		{
+			// rest of a long line
+			continue;
+		}
+
 		if (char* pe = strrchr(p, '\r')) *pe = '\0';
 		debug("header=%s", p);
 
@@ -153,7 +163,7 @@ void WebProcessor::ParseHeaders()
 			if (strlen(authInfo64) > sizeof(m_authInfo))
 			{
 				error("Invalid-request: auth-info too big");
-				return;
+				continue;
 			}
 			m_authInfo[WebUtil::DecodeBase64(authInfo64, 0, m_authInfo)] = '\0';
 		}
@@ -163,7 +173,7 @@ void WebProcessor::ParseHeaders()
 			if (strlen(authInfo64) > sizeof(m_authInfo))
 			{
 				error("Invalid-request: auth-info too big");
-				return;
+				continue;
 			}
 			m_authInfo[WebUtil::DecodeBase64(authInfo64, 0, m_authInfo)] = '\0';
 		}
-- 
2.43.0


From 6463e1c491b2dff42a7371141ba9150999e56b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 082/100] fix: string parameters of calls within multicall read
 wrongly

---
 daemon/remote/XmlRpc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 3e748d1..416aab7 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -465,7 +465,12 @@ void XmlRpcProcessor::MutliCall()
 
 		char methodName[100];
 		methodName[0] = '\0';
-		WebUtil::XmlParseTagValue(nameEnd, "string", methodName, sizeof(methodName), nullptr);
+		const char* methodEnd = nullptr;
+		if (WebUtil::XmlParseTagValue(nameEnd, "string", methodName, sizeof(methodName), &methodEnd))
+		{
+			// the parameters follow the method name
+			requestPtr += methodEnd - requestPtr + 9; //strlen("</string>")
+		}
 		debug("MutliCall, MethodName=%s", methodName);
 
 		std::unique_ptr<XmlCommand> command = CreateCommand(methodName);
-- 
2.43.0


From 1430e0d32017eb19dd50a1b24be0f639865ebef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:46 +0000
Subject: [PATCH 083/100] fix: memory corruption when a directory is requested
 from the web server

---
 daemon/util/FileSystem.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/daemon/util/FileSystem.cpp b/daemon/util/FileSystem.cpp
index afea40f..5169219 100644
--- a/daemon/util/FileSystem.cpp
+++ b/daemon/util/FileSystem.cpp
@@ -220,9 +220,17 @@ bool FileSystem::LoadFileIntoBuffer(const char* filename, CharBuffer& buffer, bo
 
 	// obtain file size.
 	file.Seek(0, DiskFile::soEnd);
-	int size  = (int)file.Position();
+	int64 fileSize = file.Position();
 	file.Seek(0);
 
+	if (fileSize < 0 || fileSize >= 0x7FFFFFFF)
+	{
+		// too large or not a file (directory)
+		return false;
+	}
+
+	int size = (int)fileSize;
+
 	// allocate memory to contain the whole file.
 	buffer.Reserve(size + (addTrailingNull ? 1 : 0));
 
-- 
2.43.0


From 671a1f2e736e1c86cebbd8521c63a422c47c823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:46 +0000
Subject: [PATCH 084/100] fix: combined web files cut at the first zero byte

---
 daemon/remote/WebServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index b2d601c..19abd5a 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -623,7 +623,10 @@ void WebProcessor::SendMultiFileResponse()
 			return;
 		}
 
-		response.Append(body);
+		if (body.Size() > 1)
+		{
+			response.Append(body, body.Size() - 1);
+		}
 	}
 
 	SendBodyResponse(response, response.Length(), DetectContentType(m_url), true);
-- 
2.43.0


From 7713d1eb94aa144a8bd2b81f3342c4f5120a30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:46 +0000
Subject: [PATCH 085/100] fix: answers of web server with damaged header if the
 origin of request is long

---
 daemon/remote/WebServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index 19abd5a..82862b7 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -413,7 +413,7 @@ void WebProcessor::SendOptionsResponse()
 		"Access-Control-Allow-Headers: Content-Type, Authorization\r\n"
 		"Server: nzbget-%s\r\n"
 		"\r\n";
-	BString<1024> responseHeader(OPTIONS_RESPONSE_HEADER,
+	CString responseHeader = CString::FormatStr(OPTIONS_RESPONSE_HEADER,
 		m_keepAlive ? "keep-alive" : "close", 
 		m_origin.Str(), Util::VersionRevision());
 
@@ -541,7 +541,7 @@ void WebProcessor::SendBodyResponse(const char* body, int bodyLen, const char* c
 		contentTypeHeader.Format("Content-Type: %s\r\n", contentType);
 	}
 
-	BString<1024> responseHeader(RESPONSE_HEADER,
+	CString responseHeader = CString::FormatStr(RESPONSE_HEADER,
 		unchanged ? ERR_HTTP_NOT_MODIFIED : ERR_HTTP_OK,
 		m_keepAlive ? "keep-alive" : "close",
 		m_origin.Str(),
-- 
2.43.0


From c1528bac9cf3a7dbae1fcf79c79e390cc64f89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:46 +0000
Subject: [PATCH 086/100] fix: second answer after redirection by web server

---
 daemon/remote/WebServer.cpp | 15 ++++++++++++---
 daemon/remote/WebServer.h   |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index 82862b7..1a6a883 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -97,7 +97,10 @@ void WebProcessor::Execute()
 		return;
 	}
 
-	ParseUrl();
+	if (!ParseUrl())
+	{
+		return;
+	}
 
 	m_rpcRequest = XmlRpcProcessor::IsRpcRequest(m_url);
 	m_authorized = CheckCredentials();
@@ -218,7 +221,7 @@ void WebProcessor::ParseHeaders()
 	debug("Auth-Token=%s", m_authToken);
 }
 
-void WebProcessor::ParseUrl()
+bool WebProcessor::ParseUrl()
 {
 	// remove subfolder "nzbget" from the path (if exists)
 	// http://localhost:6789/nzbget/username:password/jsonrpc -> http://localhost:6789/username:password/jsonrpc
@@ -229,8 +232,13 @@ void WebProcessor::ParseUrl()
 	// http://localhost:6789/nzbget -> http://localhost:6789
 	if (!strcmp(m_url, "/nzbget"))
 	{
+		if (m_httpMethod == hmPost)
+		{
+			// the request content remains unread
+			m_keepAlive = false;
+		}
 		SendRedirectResponse(BString<1024>("%s/", *m_url));
-		return;
+		return false;
 	}
 
 	// authorization via URL in format:
@@ -249,6 +257,7 @@ void WebProcessor::ParseUrl()
 	}
 
 	debug("Final URL=%s", *m_url);
+	return true;
 }
 
 bool WebProcessor::CheckCredentials()
diff --git a/daemon/remote/WebServer.h b/daemon/remote/WebServer.h
index 7490a28..c77c7f3 100644
--- a/daemon/remote/WebServer.h
+++ b/daemon/remote/WebServer.h
@@ -77,7 +77,7 @@ private:
 	const char* DetectContentType(const char* filename);
 	bool IsAuthorizedIp(const char* remoteAddr);
 	void ParseHeaders();
-	void ParseUrl();
+	bool ParseUrl();
 	bool CheckCredentials();
 };
 
-- 
2.43.0


From e7f4cd199d57661825d4a30993f75316eaf0835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:28 +0000
Subject: [PATCH 087/100] fix: reading beyond an empty request URL

---
 daemon/remote/WebServer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index 1a6a883..d66a326 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -223,6 +223,12 @@ void WebProcessor::ParseHeaders()
 
 bool WebProcessor::ParseUrl()
 {
+	if (m_url[0] != '/')
+	{
+		// not a path, will be rejected
+		return true;
+	}
+
 	// remove subfolder "nzbget" from the path (if exists)
 	// http://localhost:6789/nzbget/username:password/jsonrpc -> http://localhost:6789/username:password/jsonrpc
 	if (!strncmp(m_url, "/nzbget/", 8))
-- 
2.43.0


From 2c1f0abce47a0958a466743538aa65d6e11c566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 088/100] fix: JSON requests interpreted wrongly if names of
 fields occur in parameters, fields after params taken as parameters

---
 daemon/remote/XmlRpc.cpp | 23 ++++++++---
 daemon/util/Util.cpp     | 87 +++++++++++++++++++++++++++++++++++++---
 daemon/util/Util.h       |  2 +
 3 files changed, 101 insertions(+), 11 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 416aab7..70e645b 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -374,7 +374,7 @@ void XmlRpcProcessor::Dispatch()
 	char* request = m_request;
 
 	BString<100> methodName;
-	BString<100> requestId;
+	CString requestId;
 
 	if (m_httpMethod == hmGet)
 	{
@@ -406,12 +406,17 @@ void XmlRpcProcessor::Dispatch()
 		if (const char* methodPtr = WebUtil::JsonFindField(m_request, "method", &valueLen))
 		{
 			valueLen = valueLen >= (int)sizeof(methodName) ? (int)sizeof(methodName) - 1 : valueLen;
-			methodName.Set(methodPtr + 1, valueLen - 2);
+			if (*methodPtr == '"' && valueLen > 2)
+			{
+				methodName.Set(methodPtr + 1, valueLen - 2);
+			}
 		}
 		if (const char* requestIdPtr = WebUtil::JsonFindField(m_request, "id", &valueLen))
 		{
-			valueLen = valueLen >= (int)sizeof(requestId) ? (int)sizeof(requestId) - 1 : valueLen;
-			requestId.Set(requestIdPtr, valueLen);
+			if (valueLen > 0)
+			{
+				requestId.Set(requestIdPtr, valueLen);
+			}
 		}
 	}
 
@@ -859,13 +864,19 @@ void XmlCommand::PrepareParams()
 {
 	if (IsJson() && m_httpMethod == XmlRpcProcessor::hmPost)
 	{
-		char* params = strstr(m_requestPtr, "\"params\"");
+		char* params = (char*)WebUtil::JsonFindKey(m_requestPtr, "params");
 		if (!params)
 		{
 			m_requestPtr[0] = '\0';
 			return;
 		}
-		m_requestPtr = params + 8; // strlen("\"params\"")
+		m_requestPtr = params;
+
+		// what follows after the parameters is not a parameter
+		if (char* end = (char*)WebUtil::JsonValueEnd(params))
+		{
+			*end = '\0';
+		}
 	}
 
 	if (m_protocol == XmlRpcProcessor::rpJsonPRpc)
diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 57eb9bb..4b6a5ee 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1267,14 +1267,91 @@ BreakLoop:
 
 const char* WebUtil::JsonFindField(const char* jsonText, const char* fieldName, int* valueLength)
 {
-	BString<100> openTag("\"%s\"", fieldName);
+	const char* pstart = JsonFindKey(jsonText, fieldName);
+	return pstart ? JsonNextValue(pstart, valueLength) : nullptr;
+}
+
+const char* WebUtil::JsonFindKey(const char* jsonText, const char* fieldName)
+{
+	// search among the fields of the object, skipping contents of the values
+	const int fieldLen = strlen(fieldName);
+	int depth = 0;
+	bool key = false;
+
+	for (const char* p = jsonText; *p; p++)
+	{
+		switch (*p)
+		{
+			case '{':
+			case '[':
+				depth++;
+				key = depth == 1 && *p == '{';
+				break;
+
+			case '}':
+			case ']':
+				depth--;
+				break;
+
+			case ',':
+				key = depth == 1;
+				break;
+
+			case '"':
+				{
+					const char* pstart = p + 1;
+					for (p++; *p && *p != '"'; p++)
+					{
+						if (*p == '\\' && !*++p) return nullptr;
+					}
+					if (!*p) return nullptr;
+
+					if (key && (int)(p - pstart) == fieldLen && !strncmp(pstart, fieldName, fieldLen))
+					{
+						return p + 1;
+					}
+					key = false;
+				}
+				break;
+		}
+	}
 
-	const char* pstart = strstr(jsonText, openTag);
-	if (!pstart) return nullptr;
+	return nullptr;
+}
+
+const char* WebUtil::JsonValueEnd(const char* jsonText)
+{
+	int depth = 0;
+
+	for (const char* p = jsonText; *p; p++)
+	{
+		switch (*p)
+		{
+			case '{':
+			case '[':
+				depth++;
+				break;
 
-	pstart += strlen(openTag);
+			case '}':
+			case ']':
+				if (--depth <= 0) return p + 1;
+				break;
+
+			case ',':
+				if (depth == 0) return p;
+				break;
+
+			case '"':
+				for (p++; *p && *p != '"'; p++)
+				{
+					if (*p == '\\' && !*++p) return nullptr;
+				}
+				if (!*p) return nullptr;
+				break;
+		}
+	}
 
-	return JsonNextValue(pstart, valueLength);
+	return nullptr;
 }
 
 const char* WebUtil::JsonNextValue(const char* jsonText, int* valueLength)
diff --git a/daemon/util/Util.h b/daemon/util/Util.h
index 453ff1f..6a46a1f 100644
--- a/daemon/util/Util.h
+++ b/daemon/util/Util.h
@@ -154,6 +154,8 @@ public:
 	* The returned pointer points to the part of source-string, no additional strings are allocated.
 	*/
 	static const char* JsonNextValue(const char* jsonText, int* valueLength);
+	static const char* JsonFindKey(const char* jsonText, const char* fieldName);
+	static const char* JsonValueEnd(const char* jsonText);
 
 	/*
 	* Unquote http quoted string.
-- 
2.43.0


From 3dcf192565a350585847d56b50044c04ce08aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 089/100] fix: reading beyond the end of JSON requests ending
 after a value

---
 daemon/remote/XmlRpc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 70e645b..1596425 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -926,7 +926,7 @@ bool XmlCommand::NextParamAsInt(int* value)
 			return false;
 		}
 		*value = atoi(param);
-		m_requestPtr = param + len + 1;
+		m_requestPtr = param + len + (param[len] ? 1 : 0);
 		return true;
 	}
 	else
@@ -990,13 +990,13 @@ bool XmlCommand::NextParamAsBool(bool* value)
 		if (len == 4 && !strncmp(param, "true", 4))
 		{
 			*value = true;
-			m_requestPtr = param + len + 1;
+			m_requestPtr = param + len + (param[len] ? 1 : 0);
 			return true;
 		}
 		else if (len == 5 && !strncmp(param, "false", 5))
 		{
 			*value = false;
-			m_requestPtr = param + len + 1;
+			m_requestPtr = param + len + (param[len] ? 1 : 0);
 			return true;
 		}
 		else
@@ -1053,7 +1053,7 @@ bool XmlCommand::NextParamAsStr(char** value)
 		}
 		param++; // skip first '"'
 		param[len - 2] = '\0'; // skip last '"'
-		m_requestPtr = param + len;
+		m_requestPtr = param + len - 1 + (param[len - 1] ? 1 : 0);
 		*value = param;
 		return true;
 	}
-- 
2.43.0


From 8f4bcc864d687c724d81520a915a8c9459006e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 090/100] fix: struct parameters of calls within multicall
 taken as calls

---
 daemon/remote/XmlRpc.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 1596425..bdb299a 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -448,6 +448,24 @@ void XmlRpcProcessor::Dispatch()
 	}
 }
 
+// end of the struct describing a call, which may itself have structs as parameters
+static char* FindCallEnd(char* request)
+{
+	int depth = 0;
+	for (char* p = request; (p = strchr(p, '<')); p++)
+	{
+		if (!strncmp(p, "<struct>", 8))
+		{
+			depth++;
+		}
+		else if (!strncmp(p, "</struct>", 9) && --depth <= 0)
+		{
+			return p;
+		}
+	}
+	return nullptr;
+}
+
 void XmlRpcProcessor::MutliCall()
 {
 	bool error = false;
@@ -456,7 +474,7 @@ void XmlRpcProcessor::MutliCall()
 	response.Append("<array><data>");
 
 	char* requestPtr = m_request;
-	char* callEnd = strstr(requestPtr, "</struct>");
+	char* callEnd = FindCallEnd(requestPtr);
 	while (callEnd)
 	{
 		*callEnd = '\0';
@@ -503,7 +521,7 @@ void XmlRpcProcessor::MutliCall()
 		}
 
 		requestPtr = callEnd + 9; //strlen("</struct>")
-		callEnd = strstr(requestPtr, "</struct>");
+		callEnd = FindCallEnd(requestPtr);
 	}
 
 	if (error)
-- 
2.43.0


From 6dfe19afdf366656071de34f9789d693550e8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 091/100] fix: parameters lost in JSON requests having white
 space before closing brackets

---
 daemon/remote/XmlRpc.cpp | 13 ++++++++++---
 daemon/remote/XmlRpc.h   |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index bdb299a..31b8c4a 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -918,6 +918,13 @@ char* XmlCommand::XmlNextValue(char* xml, const char* tag, int* valueLength)
 	return nullptr;
 }
 
+char* XmlCommand::JsonNextParam(char* json, int* valueLength)
+{
+	// leave finished arrays and structs
+	while (*json && strchr(" ,]}\r\n\t\f", *json)) json++;
+	return (char*)WebUtil::JsonNextValue(json, valueLength);
+}
+
 bool XmlCommand::NextParamAsInt(int* value)
 {
 	if (m_httpMethod == XmlRpcProcessor::hmGet)
@@ -938,7 +945,7 @@ bool XmlCommand::NextParamAsInt(int* value)
 	else if (IsJson())
 	{
 		int len = 0;
-		char* param = (char*)WebUtil::JsonNextValue(m_requestPtr, &len);
+		char* param = JsonNextParam(m_requestPtr, &len);
 		if (!param || !strchr("-+0123456789", *param))
 		{
 			return false;
@@ -1000,7 +1007,7 @@ bool XmlCommand::NextParamAsBool(bool* value)
 	else if (IsJson())
 	{
 		int len = 0;
-		char* param = (char*)WebUtil::JsonNextValue(m_requestPtr, &len);
+		char* param = JsonNextParam(m_requestPtr, &len);
 		if (!param)
 		{
 			return false;
@@ -1064,7 +1071,7 @@ bool XmlCommand::NextParamAsStr(char** value)
 	else if (IsJson())
 	{
 		int len = 0;
-		char* param = (char*)WebUtil::JsonNextValue(m_requestPtr, &len);
+		char* param = JsonNextParam(m_requestPtr, &len);
 		if (!param || len < 2 || param[0] != '"' || param[len - 1] != '"')
 		{
 			return false;
diff --git a/daemon/remote/XmlRpc.h b/daemon/remote/XmlRpc.h
index 79084c1..cb25f69 100644
--- a/daemon/remote/XmlRpc.h
+++ b/daemon/remote/XmlRpc.h
@@ -116,6 +116,7 @@ protected:
 	bool NextParamAsBool(bool* value);
 	bool NextParamAsStr(char** valueBuf);
 	char* XmlNextValue(char* xml, const char* tag, int* valueLength);
+	char* JsonNextParam(char* json, int* valueLength);
 	const char* BoolToStr(bool value);
 	CString EncodeStr(const char* str);
 	void DecodeStr(char* str);
-- 
2.43.0


From 22092a4c16cbd67d52914d6a4179e9c938721c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:16 +0000
Subject: [PATCH 092/100] fix: malformed JSON answer of servervolumes if not
 all arrays are requested

---
 daemon/remote/XmlRpc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 31b8c4a..9e167b5 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -3175,7 +3175,7 @@ void ServerVolumesXmlCommand::Execute()
 	"\"SecSlot\" : %i,\n"
 	"\"MinSlot\" : %i,\n"
 	"\"HourSlot\" : %i,\n"
-	"\"DaySlot\" : %i,\n";
+	"\"DaySlot\" : %i";
 
 	const char* JSON_BYTES_ARRAY_START =
 	"\"%s\" : [\n";
@@ -3188,10 +3188,10 @@ void ServerVolumesXmlCommand::Execute()
 	"}";
 
 	const char* JSON_BYTES_ARRAY_END =
-	"]\n";
+	"]";
 
 	const char* JSON_VOLUME_ITEM_END =
-	"}\n";
+	"\n}\n";
 
 	AppendResponse(IsJson() ? "[\n" : "<array><data>\n");
 
@@ -3229,6 +3229,7 @@ void ServerVolumesXmlCommand::Execute()
 				ServerVolume::VolumeArray* volumeArray = VolumeArrays[i];
 				const char* arrayName = VolumeNames[i];
 
+				AppendCondResponse(",\n", IsJson());
 				AppendFmtResponse(IsJson() ? JSON_BYTES_ARRAY_START : XML_BYTES_ARRAY_START, arrayName);
 
 				int index2 = 0;
@@ -3244,7 +3245,6 @@ void ServerVolumesXmlCommand::Execute()
 				}
 
 				AppendResponse(IsJson() ? JSON_BYTES_ARRAY_END : XML_BYTES_ARRAY_END);
-				AppendCondResponse(",\n", IsJson() && i < 3);
 			}
 		}
 		AppendResponse(IsJson() ? JSON_VOLUME_ITEM_END : XML_VOLUME_ITEM_END);
-- 
2.43.0


From cdd5872306e1526c10e307ec1480567c608dc8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:45 +0000
Subject: [PATCH 093/100] fix: errors of calls within multicall returned as
 results, results not enclosed in values

---
 daemon/remote/XmlRpc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 9e167b5..7fc549a 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -506,18 +506,18 @@ void XmlRpcProcessor::MutliCall()
 
 		debug("MutliCall, Response=%s", command->GetResponse());
 
-		bool fault = !strncmp(command->GetResponse(), "<fault>", 7);
+		bool fault = command->GetFault();
 		bool array = !fault && !strncmp(command->GetResponse(), "<array>", 7);
 		if (!fault && !array)
 		{
-			response.Append("<array><data>");
+			response.Append("<value><array><data>");
 		}
 		response.Append("<value>");
 		response.Append(command->GetResponse());
 		response.Append("</value>");
 		if (!fault && !array)
 		{
-			response.Append("</data></array>");
+			response.Append("</data></array></value>");
 		}
 
 		requestPtr = callEnd + 9; //strlen("</struct>")
-- 
2.43.0


From 955e0b5594b7256726885d13f563d9248d646db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 094/100] fix: reading beyond the data of binary requests with
 inconsistent lengths or unterminated strings (C27)

---
 daemon/remote/BinRpc.cpp | 93 +++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 29 deletions(-)

diff --git a/daemon/remote/BinRpc.cpp b/daemon/remote/BinRpc.cpp
index 00d37b5..07ce37c 100644
--- a/daemon/remote/BinRpc.cpp
+++ b/daemon/remote/BinRpc.cpp
@@ -72,6 +72,7 @@ protected:
 	SNzbRequestBase* m_messageBase;
 
 	bool ReceiveRequest(void* buffer, int size);
+	bool ReceiveTrailingData(CharBuffer& buffer, int size);
 	void SendBoolResponse(bool success, const char* text);
 };
 
@@ -162,6 +163,8 @@ public:
 //*****************************************************************
 // BinProcessor
 
+static const int MAX_TRAILING_DATA = 1024 * 1024 * 1024;
+
 BinRpcProcessor::BinRpcProcessor()
 {
 	m_messageBase.m_signature = (int)NZBMESSAGE_SIGNATURE;
@@ -309,6 +312,32 @@ bool BinCommand::ReceiveRequest(void* buffer, int size)
 	return true;
 }
 
+// Reads the data following the request; the buffer gets a trailing '\0'
+bool BinCommand::ReceiveTrailingData(CharBuffer& buffer, int size)
+{
+	if (size < 0 || size > MAX_TRAILING_DATA)
+	{
+		error("Invalid size of trailing data");
+		return false;
+	}
+
+	buffer.Reserve(size + 1);
+	if (!buffer)
+	{
+		error("Could not allocate memory for trailing data");
+		return false;
+	}
+
+	if (size > 0 && !m_connection->Recv(buffer, size))
+	{
+		error("invalid request");
+		return false;
+	}
+
+	buffer[size] = '\0';
+	return true;
+}
+
 void PauseUnpauseBinCommand::Execute()
 {
 	SNzbPauseUnpauseRequest PauseUnpauseRequest;
@@ -404,12 +433,14 @@ void DownloadBinCommand::Execute()
 		return;
 	}
 
-	int bufLen = ntohl(DownloadRequest.m_trailingDataLength);
-	CharBuffer nzbContent(bufLen);
+	DownloadRequest.m_nzbFilename[sizeof(DownloadRequest.m_nzbFilename) - 1] = '\0';
+	DownloadRequest.m_category[sizeof(DownloadRequest.m_category) - 1] = '\0';
+	DownloadRequest.m_dupeKey[sizeof(DownloadRequest.m_dupeKey) - 1] = '\0';
 
-	if (!m_connection->Recv(nzbContent, nzbContent.Size()))
+	int bufLen = ntohl(DownloadRequest.m_trailingDataLength);
+	CharBuffer nzbContent;
+	if (!ReceiveTrailingData(nzbContent, bufLen))
 	{
-		error("invalid request");
 		return;
 	}
 
@@ -473,6 +504,7 @@ void ListBinCommand::Execute()
 	{
 		ERemoteMatchMode matchMode = (ERemoteMatchMode)ntohl(ListRequest.m_matchMode);
 		bool matchGroup = ntohl(ListRequest.m_matchGroup);
+		ListRequest.m_pattern[sizeof(ListRequest.m_pattern) - 1] = '\0';
 		const char* pattern = ListRequest.m_pattern;
 
 		std::unique_ptr<RegEx> regEx;
@@ -735,18 +767,13 @@ void LogBinCommand::Execute()
 		}
 		if (idFrom > 0 && !messages->empty())
 		{
-			start = idFrom - messages->front().GetId();
-			if (start < 0)
-			{
-				start = 0;
-			}
-			nrEntries = messages->size() - start;
-			if (nrEntries < 0)
-			{
-				nrEntries = 0;
-			}
+			uint32 firstId = messages->front().GetId();
+			uint32 offset = idFrom > firstId ? idFrom - firstId : 0;
+			start = offset < messages->size() ? offset : messages->size();
 		}
 
+		nrEntries = messages->size() - start;
+
 		// calculate required buffer size
 		bufsize = nrEntries * sizeof(SNzbLogResponseEntry);
 		for (uint32 i = (uint32)start; i < messages->size(); i++)
@@ -814,17 +841,16 @@ void EditQueueBinCommand::Execute()
 	int textLen = ntohl(EditQueueRequest.m_textLen);
 	uint32 bufLength = ntohl(EditQueueRequest.m_trailingDataLength);
 
-	if (nrIdEntries * sizeof(int32) + textLen + nameEntriesLen != bufLength)
+	if (nrIdEntries < 0 || textLen < 0 || nameEntriesLen < 0 ||
+		nrIdEntries * (int64)sizeof(int32) + textLen + nameEntriesLen != bufLength)
 	{
 		error("Invalid struct size");
 		return;
 	}
 
-	CharBuffer buf(bufLength);
-
-	if (!m_connection->Recv(buf, buf.Size()))
+	CharBuffer buf;
+	if (!ReceiveTrailingData(buf, bufLength))
 	{
-		error("invalid request");
 		return;
 	}
 
@@ -834,9 +860,14 @@ void EditQueueBinCommand::Execute()
 		return;
 	}
 
-	char* text = textLen > 0 ? *buf : nullptr;
-	int32* ids = (int32*)(buf + textLen);
-	char* names = (buf + textLen + nrIdEntries * sizeof(int32));
+	CString text;
+	if (textLen > 0)
+	{
+		text.Set(buf, textLen);
+	}
+	char* ids = buf + textLen;
+	char* names = buf + textLen + nrIdEntries * sizeof(int32);
+	char* namesEnd = names + nameEntriesLen;
 
 	IdList cIdList;
 	NameList cNameList;
@@ -846,15 +877,21 @@ void EditQueueBinCommand::Execute()
 		cIdList.reserve(nrIdEntries);
 		for (int i = 0; i < nrIdEntries; i++)
 		{
-			cIdList.push_back(ntohl(ids[i]));
+			int32 id;
+			memcpy(&id, ids + i * sizeof(id), sizeof(id));
+			cIdList.push_back(ntohl(id));
 		}
 	}
 
 	if (nrNameEntries > 0)
 	{
-		cNameList.reserve(nrNameEntries);
 		for (int i = 0; i < nrNameEntries; i++)
 		{
+			if (names >= namesEnd)
+			{
+				error("Invalid struct size");
+				return;
+			}
 			cNameList.push_back(names);
 			names += strlen(names) + 1;
 		}
@@ -865,7 +902,7 @@ void EditQueueBinCommand::Execute()
 		nrNameEntries > 0 ? &cNameList : nullptr,
 		(DownloadQueue::EMatchMode)matchMode, (DownloadQueue::EEditAction)action,
 		action == DownloadQueue::eaFileMoveOffset || action == DownloadQueue::eaGroupMoveOffset ?
-		*CString::FormatStr("%i", offset) : text);
+		*CString::FormatStr("%i", offset) : text.Str());
 
 	if (ok)
 	{
@@ -991,11 +1028,9 @@ void WriteLogBinCommand::Execute()
 		return;
 	}
 
-	CharBuffer recvBuffer(ntohl(WriteLogRequest.m_trailingDataLength));
-
-	if (!m_connection->Recv(recvBuffer, recvBuffer.Size()))
+	CharBuffer recvBuffer;
+	if (!ReceiveTrailingData(recvBuffer, ntohl(WriteLogRequest.m_trailingDataLength)))
 	{
-		error("invalid request");
 		return;
 	}
 
-- 
2.43.0


From 79c461407c08d571ca619425ed5d2d66506b4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 095/100] fix: crash on editing history or post-processing
 queue by names (C27)

---
 daemon/queue/QueueEditor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 8704cb4..f8b1972 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -302,6 +302,13 @@ bool QueueEditor::EditEntry(DownloadQueue* downloadQueue, int ID, DownloadQueue:
 bool QueueEditor::EditList(DownloadQueue* downloadQueue, IdList* idList, NameList* nameList, DownloadQueue::EMatchMode matchMode,
 	DownloadQueue::EEditAction action, const char* args)
 {
+	if ((action == DownloadQueue::eaPostDelete ||
+		(DownloadQueue::eaHistoryDelete <= action && action <= DownloadQueue::eaHistorySetName)) && !idList)
+	{
+		// these actions work only with IDs
+		return false;
+	}
+
 	if (action == DownloadQueue::eaPostDelete)
 	{
 		return g_PrePostProcessor->EditList(downloadQueue, idList, action, args);
-- 
2.43.0


From 0d433e17effeb9b105316f94acc9114536bed0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 096/100] fix: crash on web requests with a very large content
 length (C27)

---
 daemon/remote/WebServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/remote/WebServer.cpp b/daemon/remote/WebServer.cpp
index d66a326..2022369 100644
--- a/daemon/remote/WebServer.cpp
+++ b/daemon/remote/WebServer.cpp
@@ -38,6 +38,7 @@ static const char* ERR_HTTP_NOT_FOUND = "404 Not Found";
 static const char* ERR_HTTP_SERVICE_UNAVAILABLE = "503 Service Unavailable";
 
 static const int MAX_UNCOMPRESSED_SIZE = 500;
+static const int MAX_CONTENT_LENGTH = 1024 * 1024 * 1024;
 char WebProcessor::m_serverAuthToken[3][49];
 
 //*****************************************************************
@@ -158,7 +159,8 @@ void WebProcessor::ParseHeaders()
 
 		if (!strncasecmp(p, "Content-Length: ", 16))
 		{
-			m_contentLen = atoi(p + 16);
+			long long contentLen = atoll(p + 16);
+			m_contentLen = 0 <= contentLen && contentLen <= MAX_CONTENT_LENGTH ? (int)contentLen : -1;
 		}
 		else if (!strncasecmp(p, "Authorization: Basic ", 21) && Util::EmptyStr(m_authInfo))
 		{
-- 
2.43.0


From 0f9ae9b87c88d1d1a508d65d446d2886492f47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 097/100] fix: item lost if two items of same name are added at
 the same time (C33)

---
 daemon/queue/Scanner.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/daemon/queue/Scanner.cpp b/daemon/queue/Scanner.cpp
index 5467307..0857518 100644
--- a/daemon/queue/Scanner.cpp
+++ b/daemon/queue/Scanner.cpp
@@ -565,27 +565,28 @@ Scanner::EAddStatus Scanner::AddExternalFile(const char* nzbName, const char* ca
 		ext++;
 	}
 
-	int num = 2;
-	while (FileSystem::FileExists(scanFileName))
-	{
-		if (ext)
-		{
-			scanFileName.Format("%s%c%s_%i.%s", g_Options->GetNzbDir(),
-				PATH_SEPARATOR, *validNzbName, num, ext);
-		}
-		else
-		{
-			scanFileName.Format("%s%c%s_%i", g_Options->GetNzbDir(),
-				PATH_SEPARATOR, *validNzbName, num);
-		}
-		num++;
-	}
-
 	EAddStatus addStatus;
 
 	{
+		// another file with the same name may be added at the same time
 		Guard guard(m_scanMutex);
 
+		int num = 2;
+		while (FileSystem::FileExists(scanFileName))
+		{
+			if (ext)
+			{
+				scanFileName.Format("%s%c%s_%i.%s", g_Options->GetNzbDir(),
+					PATH_SEPARATOR, *validNzbName, num, ext);
+			}
+			else
+			{
+				scanFileName.Format("%s%c%s_%i", g_Options->GetNzbDir(),
+					PATH_SEPARATOR, *validNzbName, num);
+			}
+			num++;
+		}
+
 		if (!FileSystem::MoveFile(tempFileName, scanFileName))
 		{
 			error("Could not move file %s to %s: %s", *tempFileName, *scanFileName,
-- 
2.43.0


From 78ed0111538b619aa04da6faace097acbd9513fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 098/100] fix: crash on invalid duplicate mode in binary
 requests (C27)

---
 daemon/remote/BinRpc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/remote/BinRpc.cpp b/daemon/remote/BinRpc.cpp
index 07ce37c..0b8511f 100644
--- a/daemon/remote/BinRpc.cpp
+++ b/daemon/remote/BinRpc.cpp
@@ -448,6 +448,10 @@ void DownloadBinCommand::Execute()
 	bool addPaused = ntohl(DownloadRequest.m_addPaused);
 	bool addTop = ntohl(DownloadRequest.m_addFirst);
 	int dupeMode = ntohl(DownloadRequest.m_dupeMode);
+	if (dupeMode < dmScore || dupeMode > dmForce)
+	{
+		dupeMode = dmScore;
+	}
 	int dupeScore = ntohl(DownloadRequest.m_dupeScore);
 
 	bool ok = false;
-- 
2.43.0


From a9724d97b489d6ea73eefea2b39461e758f83742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 099/100] fix: crash or loss of feed items if the program is
 terminated while a feed is being processed (C27)

---
 daemon/feed/FeedCoordinator.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/daemon/feed/FeedCoordinator.cpp b/daemon/feed/FeedCoordinator.cpp
index 8caae2a..392e506 100644
--- a/daemon/feed/FeedCoordinator.cpp
+++ b/daemon/feed/FeedCoordinator.cpp
@@ -277,6 +277,11 @@ void FeedCoordinator::Update(Subject* caller, void* aspect)
 		(feedDownloader->GetStatus() == WebDownloader::adRetry))
 	{
 		FeedCompleted(feedDownloader);
+
+		// remove downloader from downloader list; not earlier because
+		// the program must not be terminated while the feed is being processed
+		Guard guard(m_downloadsMutex);
+		m_activeDownloads.erase(std::find(m_activeDownloads.begin(), m_activeDownloads.end(), feedDownloader));
 	}
 }
 
@@ -291,12 +296,6 @@ void FeedCoordinator::FeedCompleted(FeedDownloader* feedDownloader)
 		feedInfo->SetOutputFilename(feedDownloader->GetOutputFilename());
 	}
 
-	// remove downloader from downloader list
-	{
-		Guard guard(m_downloadsMutex);
-		m_activeDownloads.erase(std::find(m_activeDownloads.begin(), m_activeDownloads.end(), feedDownloader));
-	}
-
 	SchedulerNextUpdate(feedInfo, statusOK);
 
 	if (statusOK)
-- 
2.43.0


From 06e11d24149e1b06861f1b977290dac9b2f37b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 100/100] fix: disk filled up by articles with absurd file size
 (C27)

---
 daemon/util/FileSystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/util/FileSystem.cpp b/daemon/util/FileSystem.cpp
index 5169219..8fcf058 100644
--- a/daemon/util/FileSystem.cpp
+++ b/daemon/util/FileSystem.cpp
@@ -299,7 +299,13 @@ bool FileSystem::AllocateFile(const char* filename, int64 size, bool sparse, CSt
 	// there are no reliable function to expand file on POSIX, so we must try different approaches,
 	// starting with the fastest one and hoping it will work
 	// 1) set file size using function "truncate" (this is fast, if it works)
-	truncate(filename, size);
+	if (truncate(filename, size) == -1 && (errno == EFBIG || errno == EINVAL))
+	{
+		// such a large file can't be created at all, must not fill up the disk by trying
+		errmsg = GetLastErrorMessage();
+		DeleteFile(filename);
+		return false;
+	}
 	// check if it worked
 	ok = FileSize(filename) == size;
 	if (!ok)
-- 
2.43.0

