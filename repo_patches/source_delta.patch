From f9fd22e3dca1ef19a07f24459004f751fff7b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 001/122] fix: XML escaping replaces every special character,
 not only the first

---
 src/tool1cd/Common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 140261a..a14feab 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -152,11 +152,11 @@ string hexstring(TStream *str)
 std::string toXML(const std::string &in)
 {
 	string result(in);
-	result = StringReplace(result, "&", "&amp;");
-	result = StringReplace(result, "<", "&lt;");
-	result = StringReplace(result, ">", "&gt;");
-	result = StringReplace(result, "'", "&apos;");
-	result = StringReplace(result, "\"", "&quot;");
+	result = StringReplace(result, "&", "&amp;", rfReplaceAll);
+	result = StringReplace(result, "<", "&lt;", rfReplaceAll);
+	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
+	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
+	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
 	return result;
 }
 
-- 
2.43.0


From 8912f1761f080825adfd1a78da2ba995457161e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 002/122] fix: ToIntDef returns the default for numbers that do
 not fit into int

---
 src/tool1cd/SystemClasses/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index a8c8272..9ca704e 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -187,6 +187,8 @@ int ToIntDef(const std::string &s, int default_value)
 		return stoi(s);
 	} catch (const invalid_argument &) {
 		return default_value;
+	} catch (const out_of_range &) {
+		return default_value;
 	}
 }
 
-- 
2.43.0


From 2e667afe6312e4a3033b60b9b2f094b47fc22e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 003/122] fix: EndsWithIC does not cut multibyte characters

---
 src/tool1cd/SystemClasses/String.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/SystemClasses/String.cpp b/src/tool1cd/SystemClasses/String.cpp
index 9ca704e..03d50cd 100644
--- a/src/tool1cd/SystemClasses/String.cpp
+++ b/src/tool1cd/SystemClasses/String.cpp
@@ -178,7 +178,11 @@ bool EndsWithIC(const std::string &str, const std::string &substr)
 	if (str.size() < substr.size()) {
 		return false;
 	}
-	return CompareIC(str.substr(str.size() - substr.size(), substr.size()), substr) == 0;
+	// сравниваем после приведения регистра: отрезать суффикс по байтам до приведения нельзя,
+	// так как можно попасть внутрь многобайтового символа
+	const std::string lower_str = LowerCase(str), lower_substr = LowerCase(substr);
+	return lower_str.size() >= lower_substr.size()
+		&& lower_str.compare(lower_str.size() - lower_substr.size(), lower_substr.size(), lower_substr) == 0;
 }
 
 int ToIntDef(const std::string &s, int default_value)
-- 
2.43.0


From 96cd00926b006753f17efb521937a81f63677516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 004/122] fix: base64 line breaks are written as two-byte
 characters like the rest of the text

---
 src/tool1cd/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Base64.cpp b/src/tool1cd/Base64.cpp
index 8e92473..688ccbb 100644
--- a/src/tool1cd/Base64.cpp
+++ b/src/tool1cd/Base64.cpp
@@ -50,7 +50,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	{
 		if(blocksout >= linesize/4 && linesize)
 		{
-			outfile->Write(L"\r\n", 4);
+			outfile->Write(u"\r\n", 4);
 			blocksout = 0;
 		}
 		blocksout++;
@@ -65,7 +65,7 @@ void base64_encode(TStream* infile, TStream* outfile, int linesize)
 	len = infile->GetSize() - infile->GetPosition();
 	if(len > 0)
 	{
-		if(blocksout >= linesize / 4 && linesize) outfile->Write(L"\r\n", 4);
+		if(blocksout >= linesize / 4 && linesize) outfile->Write(u"\r\n", 4);
 		in[1] = 0;
 		in[2] = 0;
 		infile->Read(in, len);
-- 
2.43.0


From 3dba37b71bd0989e3b6d915073acf147c6a413f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 005/122] fix: an empty list is written as {}

---
 src/tool1cd/Parse_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index b52466e..5974366 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -194,7 +194,7 @@ void Tree::outtext(std::string &text)
 	node_type lt = node_type::nd_unknown;
 	TReplaceFlags _ReplaceAll = TReplaceFlags::rfReplaceAll;
 
-	if(num_subnode)
+	if(num_subnode || type == node_type::nd_list)
 	{
 		if (!text.empty()) {
 			text += "\r\n";
-- 
2.43.0


From a402b20a75ebefb669233b3b3f706420d01770f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 006/122] fix: packing completes the stream when the input
 length is a multiple of the buffer (or zero)

---
 src/tool1cd/UZLib.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 25a0e47..e294dbc 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -61,9 +61,6 @@ bool ZDeflateStream(TStream* src, TStream* dst)
 	// compress until end of file
 	do {
 		strm.avail_in = static_cast<unsigned int>(src->Read(in, CHUNKSIZE));
-		if (strm.avail_in == 0) {
-			return false;
-		}
 		/* TODO: ZDeflateStream проверка ошибок */
 
 		flush = (strm.avail_in < CHUNKSIZE) ? Z_FINISH : Z_NO_FLUSH;
-- 
2.43.0


From 33d6951417b6cbe0ffa8274f8c4f5f2b306b46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 007/122] fix: unpacking reports data that ends before its
 packed stream does

---
 src/tool1cd/UZLib.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index e294dbc..2529762 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -99,7 +99,7 @@ void ZInflateStream(TStream* src, TStream* dst)
 {
 	z_stream strm;
 	int ret;
-	
+	bool has_input = false;
 	unsigned have;
 
 	std::unique_ptr<unsigned char[]> srcBuf(new unsigned char[CHUNKSIZE]);
@@ -120,6 +120,7 @@ void ZInflateStream(TStream* src, TStream* dst)
 		strm.avail_in = static_cast<int>(src->Read(srcBuf.get(), CHUNKSIZE));
 
 		if (strm.avail_in == 0) break;
+		has_input = true;
 
 		strm.next_in = srcBuf.get();
 
@@ -157,6 +158,9 @@ void ZInflateStream(TStream* src, TStream* dst)
 	/* clean up and return */
 	(void)inflateEnd(&strm);
 
+	if (has_input && ret != Z_STREAM_END) {
+		throw ZError( "Unexpected end of input data" );
+	}
 }
 
 
-- 
2.43.0


From 9519691b34396f4cda0d865a452d7ba7f3620515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 008/122] fix: a failed attempt to unpack leaves no partial
 output before the copied data

---
 src/tool1cd/UZLib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/UZLib.cpp b/src/tool1cd/UZLib.cpp
index 2529762..f6e43f8 100755
--- a/src/tool1cd/UZLib.cpp
+++ b/src/tool1cd/UZLib.cpp
@@ -23,6 +23,7 @@
 #include <memory>
 
 #include "UZLib.h"
+#include "SystemClasses/TMemoryStream.hpp"
 
 #if !defined(_WIN32)
 #pragma package(smart_init)
@@ -168,7 +169,9 @@ void ZInflateOrCopy(TStream *src, TStream *dst)
 {
 	try {
 
-		ZInflateStream(src, dst);
+		TMemoryStream unpacked;
+		ZInflateStream(src, &unpacked);
+		dst->CopyFrom(&unpacked, 0);
 
 	} catch (ZError &) {
 		dst->CopyFrom(src, 0);
-- 
2.43.0


From 5e635d98a9ac7c360d55c00efb6e6a95d5cd7e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 009/122] fix: copying past the end of a stream copies nothing
 instead of zeros

---
 src/tool1cd/SystemClasses/TStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 1499856..5905b45 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -109,6 +109,9 @@ int64_t TStream::CopyFrom(TStream *Source, const int64_t Count)
 	}
 	std::vector<uint8_t> _data;
 	auto resultCount = Source->Read(_data, Count);
+	if (resultCount <= 0) {
+		return 0;
+	}
 	return Write(_data, resultCount);
 }
 
-- 
2.43.0


From 7d4f2ea6873bcd624f243abc630d58d57db1af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 010/122] fix: a closed file stream can be closed again or
 destroyed

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 790071d..b492052 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -76,8 +76,10 @@ void TFileStream::Reopen()
 
 void TFileStream::Close()
 {
-	_stream->close();
-	_stream.reset();
+	if (_stream) {
+		_stream->close();
+		_stream.reset();
+	}
 }
 
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
-- 
2.43.0


From ab3bf4ac660b1a16c4e327fa296f93f9ea1d5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 011/122] fix: changing the size of a file stream changes the
 file

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 10 ++++++++++
 src/tool1cd/SystemClasses/TFileStream.hpp |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index b492052..2967e58 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -82,6 +82,16 @@ void TFileStream::Close()
 	}
 }
 
+void TFileStream::SetSize(int64_t NewSize)
+{
+	Close();
+	boost::filesystem::resize_file(boost::filesystem::path(filename), NewSize);
+	Reopen();
+	if (m_position > m_size) {
+		m_position = m_size;
+	}
+}
+
 int64_t TFileStream::Read(void *Buffer, int64_t Count)
 {
 	Reopen();
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index d018f3f..4d960c7 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -52,6 +52,7 @@ public:
 
 	virtual void Close() override;
 	virtual void Reopen();
+	virtual void SetSize(int64_t NewSize) override;
 	virtual int64_t Read(void *Buffer, int64_t Count) override;
 	virtual int64_t Write(const void *Buffer, int64_t Count) override;
 
-- 
2.43.0


From 8b9407202252072f6d88811e62f4b6862882e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 012/122] fix: the sign of a decimal number is taken from its
 text

---
 src/tool1cd/BinaryDecimalNumber.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 91ff9fe..2d863bd 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -86,7 +86,9 @@ BinaryDecimalNumber::BinaryDecimalNumber(const std::string &presentation, bool h
 
 	for (char c : presentation) {
 		if (c == '.') {
-			part_no++;
+			part_no = FRAC_PART;
+		} else if (c == '-') {
+			sign = -1;
 		} else {
 			parts[part_no].push_back(c - '0');
 		}
-- 
2.43.0


From 70e2f3dc4b8233f5e37d7d5115b3c27428208235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 013/122] fix: an unsigned packed number has exactly its length
 in digits, so that reading a date does not read past its seven bytes

---
 src/tool1cd/BinaryDecimalNumber.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index 2d863bd..a3d2b23 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -52,6 +52,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 
 	uint8_t *byte_data = (uint8_t*)raw_data;
 	uint8_t first_byte = *byte_data;
+	int i = 1;
 	if (has_sign_flag) {
 		if (first_byte >> 4) {
 			sign = 1;
@@ -61,9 +62,9 @@ BinaryDecimalNumber::BinaryDecimalNumber(const void *raw_data, int length, int p
 		builder.push1(first_byte & 0x0f);
 	} else {
 		builder.push2(first_byte);
+		i = 2;
 	}
 	++byte_data;
-	int i = 1;
 	while (i < length) {
 		if (i + 1 < length) {
 			builder.push2(*byte_data);
@@ -212,7 +213,7 @@ BinaryDecimalNumber::BinaryDecimalNumber()
 }
 
 BinaryDecimalDate::BinaryDecimalDate(const void *raw_data)
-	: BinaryDecimalNumber(raw_data, 19, 0, false)
+	: BinaryDecimalNumber(raw_data, 14, 0, false)
 {}
 
 BinaryDecimalDate::BinaryDecimalDate(const std::string &presentation, const std::string &format)
-- 
2.43.0


From c86da01a56e6f531ba4d895241631f3ddb827970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 014/122] fix: a refused seek leaves the stream position alone

---
 src/tool1cd/SystemClasses/TStream.cpp | 29 +++++++++------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 5905b45..94cc4e8 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -57,28 +57,17 @@ void TStream::SetPosition(int64_t NewPosition)
 
 int64_t TStream::Seek(const int64_t offset, const TSeekOrigin Origin)
 {
-	if (Origin == soFromBeginning) {
-
-		if (offset > GetSize()) {
-			throw Exception("Wrong offset");
-		}
-		m_position = offset;
-
-	} else if (Origin == soFromEnd) {
-
-		m_position = GetSize() - offset;
-
-		if (GetSize() < offset) {
-			throw Exception("Wrong offset");
-		}
-
-	} else {
+	int64_t new_position = offset;
+	if (Origin == soFromEnd) {
+		new_position = GetSize() - offset;
+	} else if (Origin == soFromCurrent) {
+		new_position = m_position + offset;
+	}
 
-		if (m_position + offset < 0 || m_position + offset > GetSize()) {
-			throw Exception("Wrong offset");
-		}
-		m_position += offset;
+	if (new_position < 0 || new_position > GetSize()) {
+		throw Exception("Wrong offset");
 	}
+	m_position = new_position;
 	return m_position;
 }
 
-- 
2.43.0


From 029c3b18aa47dae7a3abcb91af027c727f7588de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 015/122] fix: file time conversions use 100 ns units, the full
 64 bits and UTC calendar fields

---
 src/tool1cd/SystemClasses/System.cpp | 38 ++++++++++++++++------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/tool1cd/SystemClasses/System.cpp b/src/tool1cd/SystemClasses/System.cpp
index 0653fa8..4814d19 100644
--- a/src/tool1cd/SystemClasses/System.cpp
+++ b/src/tool1cd/SystemClasses/System.cpp
@@ -41,19 +41,11 @@ uint64_t UInt32x32To64(int64_t a, int64_t b)
 // Преобразование времени FILETIME to POSIX
 uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 {
-	// takes the last modified date
-	LARGE_INTEGER date, adjust;
-	date.HighPart = pft -> dwHighDateTime;
-	date.LowPart  = pft -> dwLowDateTime;
+	// 100-nanosecond intervals since 1601
+	int64_t ticks = (int64_t)(((uint64_t)pft->dwHighDateTime << 32) | pft->dwLowDateTime);
 
-	// 100-nanoseconds = milliseconds * 10000
-	adjust.QuadPart = SEC_TO_UNIX_EPOCH * 10000;
-
-	// removes the diff between 1970 and 1601
-	date.QuadPart -= adjust.QuadPart;
-
-	// converts back from 100-nanoseconds to seconds
-	return date.QuadPart / 10000000;
+	// removes the diff between 1970 and 1601, converts from 100-nanoseconds to seconds
+	return (ticks - (int64_t)SEC_TO_UNIX_EPOCH * 10000000) / 10000000;
 }
 
 //---------------------------------------------------------------------------
@@ -61,13 +53,26 @@ uint64_t FileTime_to_POSIX(System::FILETIME * pft)
 void UnixTimeToFileTime(time_t t, System::FILETIME * pft)
 {
 
-	uint64_t ll = UInt32x32To64(t, 10000000) + SEC_TO_UNIX_EPOCH;
+	uint64_t ll = ((int64_t)t + (int64_t)SEC_TO_UNIX_EPOCH) * 10000000;
 
 	pft->dwLowDateTime = (uint32_t)ll;
 	pft->dwHighDateTime = ll >> 32;
 }
 
 
+// Число секунд с начала 1970 года, поля времени заданы в UTC
+static time_t utc_to_time(const struct tm &t)
+{
+	const int month = t.tm_mon + 1;
+	const int64_t y = (int64_t)t.tm_year + 1900 - (month <= 2 ? 1 : 0);
+	const int64_t era = (y >= 0 ? y : y - 399) / 400;
+	const int64_t yoe = y - era * 400;
+	const int64_t doy = (153 * (month + (month > 2 ? -3 : 9)) + 2) / 5 + t.tm_mday - 1;
+	const int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
+	const int64_t days = era * 146097 + doe - 719468;
+	return ((days * 24 + t.tm_hour) * 60 + t.tm_min) * 60 + t.tm_sec;
+}
+
 bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpFileTime)
 {
 	struct tm ttm;
@@ -83,7 +88,7 @@ bool SystemTimeToFileTime(const SYSTEMTIME *lpSystemTime, System::FILETIME * lpF
 	ttm.tm_wday  = 0; // возможно здесь что-то не то, надо проверять; days since Sunday - [0, 6] 
 	ttm.tm_yday  = 0; // возможно здесь что-то не то, надо проверять; days since January 1 - [0, 365]
 	
-	UnixTime = mktime(&ttm);
+	UnixTime = utc_to_time(ttm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -95,6 +100,7 @@ bool LocalFileTimeToFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	// TODO: реализовать кроссплатформенное преобразование локального системного файлового времени в универсальное (UTC) файловое время
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm *ptm  = gmtime(&rawtime);
+	ptm->tm_isdst = -1;
 	time_t UnixTime = mktime(ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 	
@@ -107,7 +113,7 @@ bool FileTimeToLocalFileTime(const FILETIME *lpLocalFileTime, System::FILETIME *
 	
 	time_t rawtime  = FileTime_to_POSIX((System::FILETIME *)lpLocalFileTime);
 	struct tm * ptm = localtime(&rawtime);
-	time_t UnixTime = mktime(ptm);
+	time_t UnixTime = utc_to_time(*ptm);
 	UnixTimeToFileTime(UnixTime, lpFileTime);
 
 	return true; 
@@ -118,7 +124,7 @@ void GetSystemTime(System::SYSTEMTIME * lpSystemTime)
 {
 	
 	time_t CurrTime = time(NULL);
-	tm *ttm = localtime(&CurrTime);
+	tm *ttm = gmtime(&CurrTime);
 
 	lpSystemTime->wYear   = ttm->tm_year + 1900;
 	lpSystemTime->wMonth  = ttm->tm_mon + 1;
-- 
2.43.0


From f048c3e05592249c94cd0570408b408b1ee8a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 016/122] fix: writing to a stream after a read reached its end
 is not lost

---
 src/tool1cd/SystemClasses/TStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/SystemClasses/TStream.cpp b/src/tool1cd/SystemClasses/TStream.cpp
index 94cc4e8..37fd869 100644
--- a/src/tool1cd/SystemClasses/TStream.cpp
+++ b/src/tool1cd/SystemClasses/TStream.cpp
@@ -200,6 +200,7 @@ int64_t TWrapperStream::Read(void *Buffer, int64_t Count)
 
 int64_t TWrapperStream::Write(const void *Buffer, int64_t Count)
 {
+	_stream->clear();
 	_stream->seekp(GetPosition(), std::ios_base::beg);
 	_stream->write((char*)Buffer, Count);
 	_stream->flush();
-- 
2.43.0


From 08f6da5993dbacef42c0714370f00ea2c57a774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 017/122] fix: numbers of a container page header are read from
 their eight characters only

---
 src/tool1cd/cfapi/APIcfBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/APIcfBase.cpp b/src/tool1cd/cfapi/APIcfBase.cpp
index b18a80c..74b901b 100755
--- a/src/tool1cd/cfapi/APIcfBase.cpp
+++ b/src/tool1cd/cfapi/APIcfBase.cpp
@@ -33,7 +33,7 @@ unsigned WindowsTickToUnixSeconds(long long windowsTicks)
 
 int32_t stBlockHeader::get_data_size() const {
 	string hex("0x");
-	hex.append(data_size_hex);
+	hex.append(data_size_hex, sizeof(data_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -49,7 +49,7 @@ void stBlockHeader::set_data_size(int32_t value) {
 
 int32_t stBlockHeader::get_page_size() const {
 	string hex("0x");
-	hex.append(page_size_hex);
+	hex.append(page_size_hex, sizeof(page_size_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
@@ -65,7 +65,7 @@ void stBlockHeader::set_page_size(int32_t value) {
 
 int32_t stBlockHeader::get_next_page_addr() const {
 	string hex("0x");
-	hex.append(next_page_addr_hex);
+	hex.append(next_page_addr_hex, sizeof(next_page_addr_hex));
 
 	return std::stoi(hex, nullptr, 16);
 }
-- 
2.43.0


From d9a81a9fb6605d4df09d2ebcdad5ac6f3588ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 018/122] fix: modification time of a container element is read
 from its own field

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 6ba6e48..737a7d7 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -338,7 +338,7 @@ void V8Catalog::initialize()
 
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
 				int64_t time_create = *(int64_t*)_temp_buf;
-				int64_t time_modify = *(int64_t*)_temp_buf + 8;
+				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
 
 				_file = new V8File(this, _name, _prev, elem_addr.data_addr, elem_addr.header_addr, time_create, time_modify);
 				delete[] _temp_buf;
-- 
2.43.0


From 48f74fff5c25f58fa7a7520d04286b794bfa7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 019/122] fix: names of container elements do not include the
 terminating zeros

---
 src/tool1cd/cfapi/V8Catalog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 737a7d7..5e6ba86 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -337,6 +337,7 @@ void V8Catalog::initialize()
 				// TODO: константы 20, 8
 
 				string _name = TEncoding::Unicode->toUtf8(vector<uint8_t>(_temp_buf + 20, _temp_buf + header_size));
+				_name = string(_name.c_str()); // имя завершается нулями
 				int64_t time_create = *(int64_t*)_temp_buf;
 				int64_t time_modify = *(int64_t*)(_temp_buf + 8);
 
-- 
2.43.0


From b8f5b54cb00084687ae1eb448641a823ccc02c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 020/122] fix: reading a container element that has no data
 does not modify the container

---
 src/tool1cd/cfapi/V8File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 38846ed..8a459cc 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -43,7 +43,7 @@ V8File::V8File(V8Catalog *_parent, const std::string &_name, V8File *_previous,
 	data     = nullptr;
 	start_data        = _start_data;
 	start_header      = _start_header;
-	_datamodified   = !start_data;
+	_datamodified   = !start_data && !start_header; // новый файл
 	is_headermodified = !start_header;
 	if(previous)
 		previous->next = this;
-- 
2.43.0


From 0cae7728f781a3d29baf3e321d44ac633c6b0f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 021/122] fix: data starting with a huge free page address is
 recognised as not being a container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 src/tool1cd/cfapi/V8File.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 5e6ba86..e4b2273 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -120,7 +120,7 @@ bool V8Catalog::is_catalog() const
 	data->Seek(0, soFromBeginning);
 	data->Read(&_startempty, 4);
 	if(_startempty != LAST_BLOCK){
-		if(_startempty + 31 >= _filelen)
+		if((int64_t)_startempty + 31 >= _filelen)
 		{
 			Lock->Release();
 			return false;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 8a459cc..8702e04 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -349,7 +349,7 @@ bool V8File::is_catalog()
 		data->Seek(0, soFromBeginning);
 		data->Read(&_startempty, 4);
 		if(_startempty != LAST_BLOCK){
-			if(_startempty + 31 >= _filelen){
+			if((int64_t)_startempty + 31 >= _filelen){
 				iscatalog = FileIsCatalog::no;
 				Lock->Release();
 				return false;
-- 
2.43.0


From 979b9c42551107ea5cfcd263af3f6ca0b3ebf5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 022/122] fix: container pages without data are read and
 written as such

---
 src/tool1cd/cfapi/V8Catalog.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index e4b2273..bf87836 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -61,7 +61,7 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	start = block_header.get_next_page_addr();
 
 	int32_t readlen = std::min(len, curlen);
-	stream_to->CopyFrom(stream_from, readlen);
+	if(readlen) stream_to->CopyFrom(stream_from, readlen);
 
 	int32_t pos = readlen;
 
@@ -74,7 +74,7 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 		start  = block_header.get_next_page_addr();
 
 		readlen = std::min(len - pos, curlen);
-		stream_to->CopyFrom(stream_from, readlen);
+		if(readlen) stream_to->CopyFrom(stream_from, readlen);
 		pos += readlen;
 	}
 
@@ -534,7 +534,7 @@ int V8Catalog::write_datablock(TStream* block, int start, bool _zipped, int len)
 		else
 		{
 			stream = new TMemoryStream;
-			stream->CopyFrom(block, len);
+			if(len) stream->CopyFrom(block, len);
 			stream2 = new TMemoryStream;
 			stream->Seek(0, soFromBeginning);
 			ZDeflateStream(stream, stream2);
@@ -643,7 +643,7 @@ int V8Catalog::write_block(TStream* block, int start, bool use_page_size, int le
 
 		data->Seek(start, soFromBeginning);
 		data->WriteBuffer(&block_header, stBlockHeader::size());
-		data->CopyFrom(block, curlen);
+		if(curlen) data->CopyFrom(block, curlen);
 		if(addwrite) {
 			_t = new char [blocklen - len];
 			memset(_t, 0, blocklen - len);
-- 
2.43.0


From 13ceb23331851ceca713ce2cd0c6a3bf79043acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 023/122] fix: deleting a container element does not use the
 deleted element

---
 src/tool1cd/cfapi/V8Catalog.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index bf87836..3bd8536 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -389,11 +389,12 @@ void V8Catalog::delete_file(const string &FileName)
 	V8File* f = first;
 	while(f)
 	{
+		V8File* next_file = f->get_next();
 		if (EqualIC(f->get_file_name(), FileName)) {
 			f->delete_file();
 			delete f;
 		}
-		f = f->get_next();
+		f = next_file;
 	}
 	Lock->Release();
 }
-- 
2.43.0


From 775e7d923b9471b1db6dc0add5886a30cbcead0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 024/122] fix: a renamed container element is found by its new
 name

---
 src/tool1cd/cfapi/V8File.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 8702e04..13533bc 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -307,6 +307,11 @@ std::string V8File::get_full_name()
 // устанавливает имя
 void V8File::set_file_name(const string &_name)
 {
+	if(parent) {
+		V8Catalog::V8Files& files = parent->v8files();
+		files.erase(LowerCase(name));
+		files[LowerCase(_name)] = this;
+	}
 	name = _name;
 	is_headermodified = true;
 }
-- 
2.43.0


From 8baf040c6e16ed98df0d161cd17de098bc8a2181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 025/122] fix: a created or renamed container element is stored
 even if it was not opened

---
 src/tool1cd/cfapi/V8File.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 13533bc..bc4e86c 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -495,7 +495,12 @@ void V8File::close(){
 
 	if(!parent) return;
 	Lock->Acquire();
-	if(!is_opened) return;
+	if(!is_opened) {
+		if(!is_headermodified || parent->data_empty() || !open()) {
+			Lock->Release();
+			return;
+		}
+	}
 
 	if( self && !self->is_destructed() ) {
 		delete self;
@@ -648,8 +653,10 @@ void V8File::flush()
 	}
 	if(!is_opened)
 	{
-		Lock->Release();
-		return;
+		if(!is_headermodified || parent->data_empty() || !open()) {
+			Lock->Release();
+			return;
+		}
 	}
 
 	flushed = true;
-- 
2.43.0


From 5223a3667328bc1917cb32d588e119418e3de455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 026/122] fix: a new packed container file is a valid empty
 container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 3bd8536..c9dd394 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -168,6 +168,8 @@ V8Catalog::V8Catalog(const string &name) // создать каталог из 
 		{
 			data->WriteBuffer(_EMPTY_CATALOG_TEMPLATE, stFileHeader::size());
 			cfu = new TFileStream(name, fmCreate);
+			data->Seek(0, soFromBeginning);
+			ZDeflateStream(data, cfu);
 		}
 		else
 		{
-- 
2.43.0


From 27efa50e5ba28fe89b325c910c43f4899750894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 027/122] fix: whether a container element is a container is
 determined again after it is written

---
 src/tool1cd/cfapi/V8File.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index bc4e86c..75861bd 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -190,6 +190,7 @@ int64_t V8File::write(const void* Buffer, int Start, int Length) // дозапи
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	data->Seek(Start, soFromBeginning);
 	ret = data->Write(Buffer, Length);
 	Lock->Release();
@@ -210,6 +211,7 @@ int64_t V8File::write(std::vector<uint8_t> Buffer, int Start, int Length) // д
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	data->Seek(Start, soFromBeginning);
 	ret = data->Write(Buffer, Length);
 	Lock->Release();
@@ -230,6 +232,7 @@ int64_t V8File::write(const void* Buffer, int Length) // перезапись ц
 
 	is_headermodified = true;
 	_datamodified = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	if (data->GetSize() > Length) data->SetSize(Length);
 	data->Seek(0, soFromBeginning);
 	ret = data->Write(Buffer, Length);
@@ -251,6 +254,7 @@ int64_t V8File::write(TStream* Stream, int Start, int Length) // дозапис
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	data->Seek(Start, soFromBeginning);
 	ret = data->CopyFrom(Stream, Length);
 	Lock->Release();
@@ -271,6 +275,7 @@ int64_t V8File::write(TStream* Stream) // перезапись целиком
 
 	is_headermodified = true;
 	_datamodified   = true;
+	if (!self) iscatalog = FileIsCatalog::unknown;
 	if (data->GetSize() > Stream->GetSize()) data->SetSize(Stream->GetSize());
 	data->Seek(0, soFromBeginning);
 	ret = data->CopyFrom(Stream, 0);
-- 
2.43.0


From 3b86cd07070f2d7bcc2447f13a0b4b0deb15e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 028/122] fix: a container element that gets its first data
 page is registered in the table of contents

---
 src/tool1cd/cfapi/V8File.cpp | 26 ++++++++++++++++++++------
 src/tool1cd/cfapi/V8File.h   |  3 +++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 75861bd..1e79e28 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -493,6 +493,20 @@ bool V8File::open(){
 	return true;
 }
 
+//---------------------------------------------------------------------------
+// адрес данных или заголовка изменился - оглавление каталога надо перезаписать
+void V8File::set_start_data(int value)
+{
+	if (start_data != value) parent->fatmodified(true);
+	start_data = value;
+}
+
+void V8File::set_start_header(int value)
+{
+	if (start_header != value) parent->fatmodified(true);
+	start_header = value;
+}
+
 //---------------------------------------------------------------------------
 // закрыть файл
 void V8File::close(){
@@ -518,7 +532,7 @@ void V8File::close(){
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				set_start_data(parent->write_datablock(data, start_data, _selfzipped));
 			}
 			if(is_headermodified)
 			{
@@ -530,7 +544,7 @@ void V8File::close(){
 				hs->Write(tb.data(), tb.size());
 				hs->Write(&zero4b, 4);
 
-				start_header = parent->write_block(hs, start_header, false);
+				set_start_header(parent->write_block(hs, start_header, false));
 				delete hs;
 			}
 			parent->Release();
@@ -574,14 +588,14 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 		auto wname = SysUtils::TEncoding::Unicode->fromUtf8(name);
 
 		parent->Acquire();
-		start_data = parent->write_datablock(Stream, start_data, _selfzipped, Length);
+		set_start_data(parent->write_datablock(Stream, start_data, _selfzipped, Length));
 		TMemoryStream hs;
 		_time_create.write_to_stream(&hs);
 		_time_modify.write_to_stream(&hs);
 		hs.Write(&_4bzero, 4);
 		hs.Write(wname.data(), wname.size());
 		hs.Write(&_4bzero, 4);
-		start_header = parent->write_block(&hs, start_header, false);
+		set_start_header(parent->write_block(&hs, start_header, false));
 		parent->Release();
 	}
 	iscatalog = FileIsCatalog::unknown;
@@ -673,7 +687,7 @@ void V8File::flush()
 			parent->Acquire();
 			if(_datamodified)
 			{
-				start_data = parent->write_datablock(data, start_data, _selfzipped);
+				set_start_data(parent->write_datablock(data, start_data, _selfzipped));
 				_datamodified = false;
 			}
 			if(is_headermodified)
@@ -686,7 +700,7 @@ void V8File::flush()
 				hs->Write(tb.data(), tb.size());
 				hs->Write(&zero4b, 4);
 
-				start_header = parent->write_block(hs, start_header, false);
+				set_start_header(parent->write_block(hs, start_header, false));
 				delete hs;
 				is_headermodified = false;
 			}
diff --git a/src/tool1cd/cfapi/V8File.h b/src/tool1cd/cfapi/V8File.h
index fe2e869..66dcc36 100644
--- a/src/tool1cd/cfapi/V8File.h
+++ b/src/tool1cd/cfapi/V8File.h
@@ -127,6 +127,9 @@ private:
 	bool _selfzipped;        // Признак, что файл является запакованным независимо от признака zipped каталога
 	TV8FileStreams _streams;
 
+	void set_start_data(int value);
+	void set_start_header(int value);
+
 	inline bool try_open() { return (!is_opened) ? open() : true; }
 };
 
-- 
2.43.0


From 90a30fe382f065b3a46d8edc2ee3172c94ba06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 029/122] fix: a container whose last page is free and empty is
 still a container

---
 src/tool1cd/cfapi/V8Catalog.cpp | 2 +-
 src/tool1cd/cfapi/V8File.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index c9dd394..76e2e82 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -120,7 +120,7 @@ bool V8Catalog::is_catalog() const
 	data->Seek(0, soFromBeginning);
 	data->Read(&_startempty, 4);
 	if(_startempty != LAST_BLOCK){
-		if((int64_t)_startempty + 31 >= _filelen)
+		if((int64_t)_startempty + 31 > _filelen)
 		{
 			Lock->Release();
 			return false;
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 1e79e28..5a0ee22 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -359,7 +359,7 @@ bool V8File::is_catalog()
 		data->Seek(0, soFromBeginning);
 		data->Read(&_startempty, 4);
 		if(_startempty != LAST_BLOCK){
-			if((int64_t)_startempty + 31 >= _filelen){
+			if((int64_t)_startempty + 31 > _filelen){
 				iscatalog = FileIsCatalog::no;
 				Lock->Release();
 				return false;
-- 
2.43.0


From a0b6c9c8aa3455b9b3a163c4867ac1f82fbff58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 030/122] fix: an object's range reads past its end are refused
 also when its data is cached, empty reads succeed

---
 src/tool1cd/V8Object.cpp | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 163aa01..679a1f9 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -412,20 +412,23 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 
 	lastdataget = GetTickCount();
 
+	uint64_t total_len = get_len();
+	if(_start > total_len || _length > total_len - _start)
+	{
+		throw DetailedException("Попытка чтения данных за пределами объекта")
+			.add_detail("Номер блока объекта", to_hex_string(block))
+			.add_detail("Длина объекта", total_len)
+			.add_detail("Начало читаемых данных", _start)
+			.add_detail("Длина читаемых данных", _length);
+	}
+
+	if(!_length) return (char*)buf;
+
 	if(data) memcpy(buf, data + _start, _length);
 	else
 	{
 		if(type == v8objtype::free80)
 		{
-			if(_start + _length > len * 4)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len * 4)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start >> 12;
 			_buf = (char*)buf;
 			curoffblock = _start - (curblock << 12);
@@ -447,15 +450,6 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 		}
 		else if(type == v8objtype::data80)
 		{
-			if(_start + _length > len)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start >> 12;
 			_buf = (char*)buf;
 			curoffblock = _start - (curblock << 12);
@@ -490,15 +484,6 @@ char* V8Object::get_data(void* buf, uint64_t _start, uint64_t _length)
 		}
 		else if(type == v8objtype::data838)
 		{
-			if(_start + _length > len)
-			{
-				throw DetailedException("Попытка чтения данных за пределами объекта")
-					.add_detail("Номер блока объекта", to_hex_string(block))
-					.add_detail("Длина объекта", len)
-					.add_detail("Начало читаемых данных", _start)
-					.add_detail("Длина читаемых данных", _length);
-			}
-
 			curblock = _start / base->get_pagesize();
 			_buf = (char*)buf;
 			offsperpage = base->get_pagesize() / 4;
-- 
2.43.0


From 9f6a8ae7830f19d04db014a7ae4478310378e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 031/122] fix: file offset of an object's byte is computed
 without truncation, block index equal to their number is refused

---
 src/tool1cd/V8Object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 679a1f9..9b71722 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -571,7 +571,7 @@ void V8Object::savetofile(const boost::filesystem::path &path)
 //---------------------------------------------------------------------------
 uint64_t V8Object::get_fileoffset(uint64_t offset)
 {
-	uint32_t _start = offset;
+	uint64_t _start = offset;
 	objtab* b;
 	objtab838* bb;
 	uint32_t curblock;
@@ -1347,7 +1347,7 @@ uint32_t V8Object::get_numblocks() const
 
 uint32_t V8Object::get_block_by_index(const uint32_t index) const
 {
-	if(index > numblocks) {
+	if(index >= numblocks) {
 		throw std::out_of_range("Индекс за границами массива блоков!");
 	}
 
-- 
2.43.0


From 89f0bc380d8f613eb9deec6ec5073be10ce597aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 032/122] fix: the last page of an object is read and written
 when it is the first of its placement page

---
 src/tool1cd/V8Object.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 9b71722..40daacc 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -346,11 +346,11 @@ char* V8Object::get_data()
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
-				if(l <= curlen) break;
 				l -= curlen;
+				if(!l) break;
 				tt += DEFAULT_PAGE_SIZE;
 			}
-			if(l <= curlen) break;
+			if(!l) break;
 		}
 	}
 	else if(type == v8objtype::data838)
@@ -369,11 +369,11 @@ char* V8Object::get_data()
 				{
 					curlen = ll > pagesize ? pagesize : ll;
 					base->get_block(tt, bb->blocks[j], curlen);
-					if(ll <= curlen) break;
 					ll -= curlen;
+					if(!ll) break;
 					tt += pagesize;
 				}
-				if(ll <= curlen) break;
+				if(!ll) break;
 			}
 		}
 		else
@@ -776,12 +776,12 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				memcpy(tt, buf, curlen);
 				buf += DEFAULT_PAGE_SIZE;
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
@@ -873,12 +873,12 @@ bool V8Object::set_data(TStream* stream)
 				curlen = std::min(static_cast<uint64_t>(DEFAULT_PAGE_SIZE),_length);
 				char *tt = base->get_block_for_write(b->blocks[j], false);
 				stream->ReadBuffer(tt, curlen);
-				if(_length <= curlen) {
+				_length -= curlen;
+				if(!_length) {
 					break;
 				}
-				_length -= curlen;
 			}
-			if(_length <= curlen) {
+			if(!_length) {
 				break;
 			}
 		}
-- 
2.43.0


From ba490eef3a35db8a211383468a929f52151d08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 033/122] fix: an object's page list is copied by the number of
 its pages when its length changes

---
 src/tool1cd/V8Object.cpp | 34 +++-------------------------------
 1 file changed, 3 insertions(+), 31 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 40daacc..15c6652 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1039,7 +1039,6 @@ void V8Object::set_len(uint64_t _len)
 {
 
 	uint32_t num_data_blocks;
-	uint32_t num_blocks;
 	uint32_t cur_data_blocks;
 	uint32_t bl;
 	uint32_t i;
@@ -1068,15 +1067,8 @@ void V8Object::set_len(uint64_t _len)
 		b->len = _len;
 
 		num_data_blocks = (_len + 0xfff) >> 12;
-		num_blocks = (num_data_blocks + 1022) / 1023;
 		cur_data_blocks = (len + 0xfff) >> 12;
 
-		if(numblocks != num_blocks)
-		{
-			blocks.clear();
-			blocks.resize(num_blocks);
-		}
-
 		if(num_data_blocks > cur_data_blocks)
 		{
 			objtab *ot;
@@ -1119,11 +1111,7 @@ void V8Object::set_len(uint64_t _len)
 		}
 
 		len = _len;
-		if(numblocks > 0) {
-			std::copy(std::begin(b->blocks),
-					  std::begin(b->blocks) + (numblocks * 4),
-					  blocks.begin());
-		}
+		blocks.assign(b->blocks, b->blocks + numblocks);
 
 		write_new_version();
 	}
@@ -1145,22 +1133,14 @@ void V8Object::set_len(uint64_t _len)
 		num_data_blocks = (_len + base->get_pagesize() - 1) / base->get_pagesize();
 		if(num_data_blocks > offsperpage - 6)
 		{
-			num_blocks = (num_data_blocks + offsperpage - 1) / offsperpage;
 			newfatlevel = 1;
 		}
 		else
 		{
-			num_blocks = num_data_blocks;
 			newfatlevel = 0;
 		}
 		cur_data_blocks = (len + base->get_pagesize() - 1) / base->get_pagesize();
 
-		if(numblocks != num_blocks)
-		{
-			blocks.clear();
-			blocks.resize(num_blocks);
-		}
-
 		if(num_data_blocks > cur_data_blocks)
 		{
 			// Увеличение длины объекта
@@ -1246,11 +1226,7 @@ void V8Object::set_len(uint64_t _len)
 		}
 
 		len = _len;
-		if(numblocks > 0) {
-			std::copy(std::begin(bd->blocks),
-					  std::begin(bd->blocks) + (numblocks * 4),
-					  blocks.begin());
-		}
+		blocks.assign(bd->blocks, bd->blocks + numblocks);
 
 		write_new_version();
 	}
@@ -1282,12 +1258,8 @@ void V8Object::set_block_as_free(uint32_t block_number)
 	else
 	{
 		ob->blocks[real_numblocks] = block_number;
-		blocks.clear();
 		real_numblocks++;
-		blocks.resize(real_numblocks);
-		std::copy(std::begin(ob->blocks),
-				  std::begin(ob->blocks) + (real_numblocks * 4),
-				  blocks.begin());
+		blocks.assign(ob->blocks, ob->blocks + real_numblocks);
 	}
 
 }
-- 
2.43.0


From 625e7ccc5326e2b7a4013acdfbd260ae3b5b7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 034/122] fix: shrinking an object with page maps in format
 8.3.8 uses its own header

---
 src/tool1cd/V8Object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 15c6652..b7ea024 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1187,7 +1187,7 @@ void V8Object::set_len(uint64_t _len)
 			// Уменьшение длины объекта
 			if(fatlevel)
 			{
-				bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
+				bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
 				{
 					i = cur_data_blocks % offsperpage;
@@ -1197,7 +1197,7 @@ void V8Object::set_len(uint64_t _len)
 					{
 						base->set_block_as_free(bd->blocks[--numblocks]);
 						bd->blocks[numblocks] = 0;
-						if(numblocks) bb = (objtab838*)base->get_block_for_write(b->blocks[numblocks - 1], true);
+						if(numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 					}
 				}
 			}
-- 
2.43.0


From de4ed2903c90cd79bfb242fc7d562d8919cd9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 035/122] fix: an object can be shrunk to zero length

---
 src/tool1cd/V8Object.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index b7ea024..f312eec 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1094,8 +1094,9 @@ void V8Object::set_len(uint64_t _len)
 		{
 			// Уменьшение длины объекта
 			objtab *ot = (objtab*)base->get_block_for_write(b->blocks[numblocks - 1], true);
-			for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+			while(cur_data_blocks > num_data_blocks)
 			{
+				cur_data_blocks--;
 				i = cur_data_blocks % 1023;
 				base->set_block_as_free(ot->blocks[i]);
 				ot->blocks[i] = 0;
@@ -1188,8 +1189,9 @@ void V8Object::set_len(uint64_t _len)
 			if(fatlevel)
 			{
 				bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					i = cur_data_blocks % offsperpage;
 					base->set_block_as_free(bb->blocks[i]);
 					bb->blocks[i] = 0;
@@ -1203,8 +1205,9 @@ void V8Object::set_len(uint64_t _len)
 			}
 			else
 			{
-				for(cur_data_blocks--; cur_data_blocks >= num_data_blocks; cur_data_blocks--)
+				while(cur_data_blocks > num_data_blocks)
 				{
+					cur_data_blocks--;
 					base->set_block_as_free(bd->blocks[cur_data_blocks]);
 					bd->blocks[cur_data_blocks] = 0;
 				}
-- 
2.43.0


From c1617f488af040c9d6bb59a4af7deb9e7c2b7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 036/122] fix: growing an object in format 8.3.8 keeps its page
 list, whatever its page map was

---
 src/tool1cd/V8Object.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index f312eec..b8b8313 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1145,17 +1145,22 @@ void V8Object::set_len(uint64_t _len)
 		if(num_data_blocks > cur_data_blocks)
 		{
 			// Увеличение длины объекта
+			bb = nullptr;
 			if(fatlevel == 0 && newfatlevel)
 			{
-				bl = base->get_free_block();
-				bb = (objtab838*)base->get_block_for_write(bl, false);
-				memcpy(bb->blocks, bd->blocks, numblocks * 4);
+				if(numblocks)
+				{
+					bl = base->get_free_block();
+					bb = (objtab838*)base->get_block_for_write(bl, false);
+					memcpy(bb->blocks, bd->blocks, numblocks * 4);
+					memset(bd->blocks, 0, numblocks * 4);
+					bd->blocks[0] = bl;
+					numblocks = 1;
+				}
 				fatlevel = newfatlevel;
 				bd->fatlevel = newfatlevel;
-				bd->blocks[0] = bl;
-				numblocks = 1;
 			}
-			else bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
+			else if(fatlevel && numblocks) bb = (objtab838*)base->get_block_for_write(bd->blocks[numblocks - 1], true);
 
 			if(fatlevel)
 			{
@@ -1181,6 +1186,7 @@ void V8Object::set_len(uint64_t _len)
 					base->get_block_for_write(bl, false); // получаем блок без чтения, на случай, если блок вдруг в конце файла
 					bd->blocks[cur_data_blocks] = bl;
 				}
+				numblocks = num_data_blocks;
 			}
 		}
 		else if(num_data_blocks < cur_data_blocks)
@@ -1221,6 +1227,7 @@ void V8Object::set_len(uint64_t _len)
 					bl = bd->blocks[0];
 					memcpy(bd->blocks, bb->blocks, num_data_blocks * 4);
 					base->set_block_as_free(bl);
+					numblocks = num_data_blocks;
 				}
 				fatlevel = 0;
 				bd->fatlevel = 0;
-- 
2.43.0


From 8ab5d2d88b07c6f08dcc184d3b9a3e36a792eb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 037/122] fix: length limits of 8.3.8 objects are computed
 without overflow

---
 src/tool1cd/V8Object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index b8b8313..d3c8ed0 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -176,7 +176,7 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 
 		len = t->len;
 		fatlevel = t->fatlevel;
-		if(fatlevel == 0 && len > ((base->get_pagesize() / 4 - 6) * base->get_pagesize()))
+		if(fatlevel == 0 && len > ((uint64_t)(base->get_pagesize() / 4 - 6) * base->get_pagesize()))
 		{
 			delete[] b;
 			init();
@@ -1119,7 +1119,7 @@ void V8Object::set_len(uint64_t _len)
 	else if(type == v8objtype::data838)
 	{
 		offsperpage = base->get_pagesize() / 4;
-		maxlen = base->get_pagesize() * offsperpage * (offsperpage - 6);
+		maxlen = (uint64_t)base->get_pagesize() * offsperpage * (offsperpage - 6);
 		if(_len > maxlen)
 		{
 			throw DetailedException("Попытка установки длины файла больше максимальной")
-- 
2.43.0


From 2bacde984bda728a609ec4cffbb054f8213b5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 038/122] fix: free page list of format 8.3.8 is read and kept
 in its own layout

---
 src/tool1cd/V8Object.cpp | 33 +++++++++++++++++++--------------
 src/tool1cd/V8Object.h   |  3 ++-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index d3c8ed0..596e751 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -232,8 +232,8 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				.add_detail("Блок", to_hex_string(blockNum));
 		}
 
-		len = 0; // ВРЕМЕННО! Пока не понятна структура файла свободных страниц
-
+		len = t->len;
+		fatlevel = t->fatlevel;
 		version.version_1 = t->version;
 		version_rec.version_1 = version.version_1 + 1;
 		version_rec.version_2 = 0;
@@ -242,13 +242,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		real_numblocks = 0;
 		data = nullptr;
 
-		if(len) numblocks = (len - 1) / 0x400 + 1;
+		if(len) numblocks = (len - 1) / (base->get_pagesize() / 4) + 1;
 		else numblocks = 0;
 
 		// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 		// numblocks - кол-во блоков с реальными данными
 		// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-		while(t->blocks[real_numblocks]) real_numblocks++;
+		while(real_numblocks < base->get_pagesize() / 4 - 3 && t->blocks[real_numblocks]) real_numblocks++;
 		if(real_numblocks > 0) {
 			blocks.clear();
 			blocks.resize(real_numblocks);
@@ -1252,24 +1252,27 @@ void V8Object::set_block_as_free(uint32_t block_number)
 			.add_detail("Блок объекта", block);
 	}
 
-	uint32_t j = len >> 10; // length / 1024
-	int32_t i = len & 0x3ff; // length % 1024
+	uint32_t offsperpage = base->get_pagesize() / 4;
+	uint32_t j = len / offsperpage;
+	uint32_t i = len % offsperpage;
 
-	v8ob *ob = (v8ob*)base->get_block_for_write(block, true);
+	char *ob = base->get_block_for_write(block, true);
 
 	if(real_numblocks > j)
 	{
 		len++;
-		ob->len = len;
+		if(type == v8objtype::free80) ((v8ob*)ob)->len = len;
+		else ((v838ob_free*)ob)->len = len;
 		uint32_t *b = (uint32_t*)base->get_block_for_write(blocks[j], true);
 		b[i] = block_number;
 		if(numblocks <= j) numblocks = j + 1;
 	}
 	else
 	{
-		ob->blocks[real_numblocks] = block_number;
+		uint32_t *ob_blocks = type == v8objtype::free80 ? ((v8ob*)ob)->blocks : ((v838ob_free*)ob)->blocks;
+		ob_blocks[real_numblocks] = block_number;
 		real_numblocks++;
-		blocks.assign(ob->blocks, ob->blocks + real_numblocks);
+		blocks.assign(ob_blocks, ob_blocks + real_numblocks);
 	}
 
 }
@@ -1287,13 +1290,15 @@ uint32_t V8Object::get_free_block()
 	if(len)
 	{
 		len--;
-		unsigned j = len >> 10; // length / 1024
-		unsigned i = len & 0x3ff; // length % 1024
+		uint32_t offsperpage = base->get_pagesize() / 4;
+		uint32_t j = len / offsperpage;
+		uint32_t i = len % offsperpage;
 		uint32_t *b = (uint32_t*)base->get_block_for_write(blocks[j], true);
 		unsigned k = b[i];
 		b[i] = 0;
-		v8ob *ob = (v8ob*)base->get_block_for_write(block, true);
-		ob->len = len;
+		char *ob = base->get_block_for_write(block, true);
+		if(type == v8objtype::free80) ((v8ob*)ob)->len = len;
+		else ((v838ob_free*)ob)->len = len;
 		return k;
 	}
 	else
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index f733bb7..a93b0ef 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -75,8 +75,9 @@ struct v838ob_free
 {
 	unsigned char sig[2]; // сигнатура 0x1C 0xFF (1C File Free?)
 	int16_t fatlevel; // 0x0000 пока! но может ... уровень таблицы размещения (0x0000 - в таблице blocks номера страниц с данными, 0x0001 - в таблице blocks номера страниц с таблицами размещения второго уровня, в которых уже, в свою очередь, находятся номера страниц с данными)
+	uint32_t len; // количество свободных страниц
 	uint32_t version; // ??? предположительно...
-	uint32_t blocks[1]; // Реальная длина массива зависит от размера страницы и равна pagesize/4-6 (от это 1018 для 4К до 16378 для 64К)
+	uint32_t blocks[1]; // Реальная длина массива зависит от размера страницы и равна pagesize/4-3
 };
 
 #pragma pack(pop)
-- 
2.43.0


From 9216f7d2a6a6f56bb14d6d3e94c75a2836fe4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 039/122] fix: writing no bytes to an object does not touch its
 page list

---
 src/tool1cd/V8Object.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 596e751..8ada540 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -657,6 +657,7 @@ bool V8Object::set_data(const void* buf, uint64_t _start, uint64_t _length)
 	if(_start + _length > len) {
 		set_len(_start + _length);
 	}
+	if(_length == 0) return true;
 
 	if(type == v8objtype::data80)
 	{
@@ -762,6 +763,7 @@ bool V8Object::set_data(const void* _buf, uint64_t _length)
 	delete[] data;
 	data = nullptr;
 	set_len(_length);
+	if(_length == 0) return true;
 
 	buf = (char*)_buf;
 
@@ -860,6 +862,7 @@ bool V8Object::set_data(TStream* stream)
 	data = nullptr;
 	_length = stream->GetSize();
 	set_len(_length);
+	if(_length == 0) return true;
 
 	stream->Seek(0, soFromBeginning);
 
@@ -958,6 +961,7 @@ bool V8Object::set_data(TStream* stream, uint64_t _start, uint64_t _length)
 	delete[] data;
 	data = nullptr;
 	if(_start + _length > len) set_len(_start + _length);
+	if(_length == 0) return true;
 
 	if(type == v8objtype::data80)
 	{
-- 
2.43.0


From fba839a3444475d3cd6eaaae3ce81941c67e1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 040/122] fix: an object that could not be opened does not stay
 in the list of objects

---
 src/tool1cd/V8Object.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 8ada540..f08d097 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -79,12 +79,6 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 	base = _base;
 	lockinmemory = false;
 
-	prev = last;
-	next = nullptr;
-	if(last) last->next = this;
-	else first = this;
-	last = this;
-
 	if(blockNum == 1)
 	{
 		if(base->get_version() < db_ver::ver8_3_8_0) type = v8objtype::free80;
@@ -262,6 +256,11 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		delete[] b;
 	}
 
+	prev = last;
+	next = nullptr;
+	if(last) last->next = this;
+	else first = this;
+	last = this;
 
 	msreg_g.AddDebugMessage("Создан объект", MessageState::Info)
 			.with("Номер блока", to_hex_string(blockNum))
-- 
2.43.0


From b26208c6930f28c935b82719af1f694b7321f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 041/122] fix: database header is read completely and its page
 size is checked

---
 src/tool1cd/Class_1CD.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 5b05f56..7473581 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -259,8 +259,12 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		throw DetailedException("Ошибка открытия файла базы (файл открыт другой программой?)");
 	}
 
-	v8con* cont = new v8con;
-	base_file->Read(cont, sizeof(v8con));
+	v8con cont_data;
+	v8con* cont = &cont_data;
+	if(base_file->Read(cont, sizeof(v8con)) != sizeof(v8con))
+	{
+		throw DetailedException("Файл не является базой 1С (не удалось прочитать заголовок файла)");
+	}
 
 	if(memcmp(&(cont->sig), SIG_CON, 8) != 0)
 	{
@@ -300,6 +304,11 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 		version = db_ver::ver8_3_8_0;
 		readonly = !_monopoly;
 		pagesize = cont->pagesize;
+		if(pagesize < DEFAULT_PAGE_SIZE || pagesize > PAGE_SIZE_64K || (pagesize & (pagesize - 1)) != 0)
+		{
+			throw DetailedException("Неподдерживаемый размер страницы базы 1С")
+					.add_detail("Размер страницы", to_hex_string(pagesize));
+		}
 	}
 	else
 	{
@@ -467,7 +476,6 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 #endif //#ifdef delic
 #endif //#ifdef getcfname
 
-	delete cont;
 	memBlockManager.garbage(/*aggressive=*/true);
 }
 
-- 
2.43.0


From 09aa8bddc77b076535a6837a5592a0382097c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 042/122] fix: a database refused for its page count is not
 left half opened

---
 src/tool1cd/Class_1CD.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 7473581..fa87dd6 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -323,12 +323,6 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 				.add_detail("Длина файла", to_hex_string(base_file->GetSize()));
 	}
 
-	fs = std::move(base_file);
-	memBlockManager = MemBlockManager(fs);
-	memBlockManager.set_page_size(pagesize);
-	memBlockManager.set_maxcount(ONE_GB / pagesize); // гигабайт
-	memBlockManager.create_memblocks(length);
-
 	if(length != cont->length)
 	{
 		throw DetailedException("Длина файла в блоках и количество блоков в заголовке не равны")
@@ -336,6 +330,12 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 				.add_detail("Блоков в заголовке", cont->length);
 	}
 
+	fs = std::move(base_file);
+	memBlockManager = MemBlockManager(fs);
+	memBlockManager.set_page_size(pagesize);
+	memBlockManager.set_maxcount(ONE_GB / pagesize); // гигабайт
+	memBlockManager.create_memblocks(length);
+
 	free_blocks = new V8Object(this, 1);
 	root_object = new V8Object(this, 2);
 
@@ -382,7 +382,7 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 
 	}
 
-	tables = new Table*[num_tables];
+	tables = new Table*[num_tables]();
 	for(i = 0, j = 0; i < num_tables; i++)
 	{
 		if(version < db_ver::ver8_3_8_0)
-- 
2.43.0


From 0705fbe46d5e32898d9ca00ecaf6f1dd07892e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 043/122] fix: the implied version field is counted among the
 fields of a table

---
 src/tool1cd/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ae78734..566fb5d 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -298,6 +298,7 @@ void Table::init(int32_t block_descr)
 		fld->set_name("VERSION");
 		fld->set_type_manager(FieldType::Version8());
 		fields.push_back(fld);
+		num_fields = fields.size();
 	}
 
 	t = t->get_next();
-- 
2.43.0


From 446bc8c48cc134c02a904bf36730d3ab15377363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 044/122] fix: text of binary values has no zero characters
 after its digits and stays within the value

---
 src/tool1cd/FieldType.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index be9ac05..55b406e 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -40,7 +40,7 @@ namespace Convert {
 string from_binary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
+	result.resize(length * 2);
 
 	for(int32_t i = 0; i < length; i++) {
 		char sym = '0' + (fr[i] >> 4);
@@ -55,17 +55,22 @@ string from_binary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[length << 1] = 0;
-
 	return result;
 }
 
 string from_varbinary(const uint8_t *fr, int32_t length)
 {
 	string result;
-	result.resize((length + 1) * 2);
 
 	int32_t m = *(int16_t*)fr; // длина + смещение
+	if(m > length) {
+		m = length;
+	}
+	if(m < 0) {
+		m = 0;
+	}
+	result.resize(m * 2);
+
 	for(int32_t i = 0; i < m; i++) {
 		char sym = '0' + (fr[i + 2] >> 4);
 		if(sym > '9') {
@@ -79,8 +84,6 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 		result[(i << 1) + 1] = sym;
 	}
 
-	result[m << 1] = 0;
-
 	return result;
 }
 
-- 
2.43.0


From a4c407fd44922f6fab4ccda7fa9d816cb4a838af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 045/122] fix: text of a string value never extends past the
 declared length of its field

---
 src/tool1cd/FieldType.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 55b406e..f9327a2 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -687,10 +687,13 @@ string CommonFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_
 		case type_fields::tf_varchar: {
 			int16_t length = *(int16_t *) fr;
 			fr += sizeof(length);
-			auto full_size = length * sizeof(WCHART);
-			if (full_size > get_size()) {
-				full_size = get_size();
+			if (length > get_length()) {
+				length = get_length();
+			}
+			if (length < 0) {
+				length = 0;
 			}
+			auto full_size = length * sizeof(WCHART);
 			return TEncoding::Unicode->toUtf8(vector<uint8_t>(fr, fr + full_size));
 		}
 		case type_fields::tf_version: {
-- 
2.43.0


From 318db4837593f440163920432e0c722af8c49955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 046/122] fix: years before 1000 are written with four digits
 in XML

---
 src/tool1cd/FieldType.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index f9327a2..0b8d6b2 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -575,7 +575,11 @@ string DatetimeFieldType::get_XML_presentation(const char *rec, const Table *par
 {
 	BinaryDecimalDate bdd(rec);
 	string result;
-	result.append(to_string(bdd.get_year()));
+	string year = to_string(bdd.get_year());
+	if(year.size() < 4) {
+		year.insert(0, 4 - year.size(), '0');
+	}
+	result.append(year);
 	result.append("-");
 	result.append(s02(to_string(bdd.get_month())));
 	result.append("-");
-- 
2.43.0


From 3a45bcb6447ddd2246bce9446645a082ea770ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 047/122] fix: string values are stored in two-byte encoding

---
 src/tool1cd/FieldType.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 0b8d6b2..78a3778 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -638,17 +638,19 @@ bool CommonFieldType::get_binary_value(char *binary_value, const string &value)
 		}
 
 		case type_fields::tf_char: {
-			int32_t i = std::min(value.size(), (size_t)length);
-			memcpy(fr, value.c_str(), i << 1);
+			auto chars = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(chars.size() / sizeof(WCHART), (size_t)length);
+			memcpy(fr, chars.data(), i * sizeof(WCHART));
 			while(i < length) {
 				((WCHART*)fr)[i++] = L' ';
 			}
 			break;
 		}
 		case type_fields::tf_varchar: {
-			int32_t i = std::min(value.size(), (size_t)length);
+			auto chars = TEncoding::Unicode->fromUtf8(value);
+			int32_t i = std::min(chars.size() / sizeof(WCHART), (size_t)length);
 			*(int16_t*)fr = i;
-			memcpy(fr + 2, value.c_str(), i * 2);
+			memcpy(fr + 2, chars.data(), i * sizeof(WCHART));
 			while(i < length) {
 				((WCHART*)(fr + 2))[i++] = L' ';
 			}
-- 
2.43.0


From d644298a0066110398a3d7ca9d2716b1fad95a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 048/122] fix: binary values are stored from the first digit of
 their text

---
 src/tool1cd/FieldType.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 78a3778..44e21eb 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -317,30 +317,35 @@ bool BinaryFieldType::get_binary_value(char *binary_value, const string &value)
 			if(value.size() == 0) {
 				break;
 			}
-			int32_t j = 1;
+			int32_t j = 0;
 			if(length == GUID_BINARY_SIZE && showGUID) // TODO Надо доделать для showGUIDasMS
 			{
 				if(value.size() < GUID_LEN) {
 					break;
 				}
 				for(int32_t ind = 12; ind < GUID_BINARY_SIZE; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 10; ind < 12; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 8; ind < 10; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 0; ind < 2; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 				j++;
 				for(int32_t ind = 2; ind < 8; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 			}
 			else {
@@ -348,7 +353,8 @@ bool BinaryFieldType::get_binary_value(char *binary_value, const string &value)
 					break;
 				}
 				for(int32_t ind = 0; ind < length; ind++) {
-					fr[ind] = (from_hex_digit(value[j++]) << 4) + from_hex_digit(value[j++]);
+					fr[ind] = (from_hex_digit(value[j]) << 4) + from_hex_digit(value[j + 1]);
+					j += 2;
 				}
 			}
 			break;
-- 
2.43.0


From 70943e0ced67371226029ee8a77e7f66678fbfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 049/122] fix: GUID values are stored from their text form

---
 src/tool1cd/FieldType.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 44e21eb..32c7fe8 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -300,6 +300,10 @@ public:
 			bool ignore_showGUID,
 			bool detailed) const override;
 
+	virtual bool get_binary_value(
+			char *buf,
+			const string &value) const override;
+
 	virtual string get_XML_presentation(
 			const char *rec,
 			const Table *parent,
@@ -832,6 +836,18 @@ string GuidFieldType::get_presentation(const char *rec, bool EmptyNull, wchar_t
 	return guid.as_1C();
 }
 
+bool GuidFieldType::get_binary_value(char *binary_value, const string &value) const
+{
+	if(value.empty()) {
+		memset(binary_value, 0, GUID_BINARY_SIZE);
+		return true;
+	}
+	BinaryGuid guid(value);
+	static_assert(sizeof(BinaryGuid) == GUID_BINARY_SIZE, "BinaryGuid");
+	memcpy(binary_value, &guid, GUID_BINARY_SIZE);
+	return true;
+}
+
 string GuidFieldType::get_XML_presentation(const char *rec, const Table *parent, bool ignore_showGUID) const
 {
 	return get_presentation(rec, false, 0, true, false);
-- 
2.43.0


From 4f0ea3da3a13e9f01ea75f7c9fb24a2a8e73bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 050/122] fix: sort key of a field that may be null takes its
 whole size and no more

---
 src/tool1cd/Field.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index 6ba11ab..d67e065 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -171,18 +171,24 @@ uint32_t Field::get_sort_key(const char* rec, unsigned char* SortKey, int32_t ma
 	const char *fr = rec + offset;
 	if (null_exists) {
 		if (*fr == 0) {
-			*(SortKey++) = 0;
-			memcpy(SortKey, (void *)null_index, get_size());
+			if (get_size() > maxlen) {
+				return 0;
+			}
+			memset(SortKey, 0, get_size());
+			return get_size();
+		}
+		if (maxlen < 1) {
 			return 0;
 		}
 		*(SortKey++) = 1;
+		maxlen--;
 
 		fr++;
 	}
 
 	try {
 
-		return type_manager->get_sort_key(fr, SortKey, maxlen);
+		return (null_exists ? 1 : 0) + type_manager->get_sort_key(fr, SortKey, maxlen);
 
 	} catch (SerializationException &exception) {
 		exception.add_detail("Таблица", parent->get_name())
-- 
2.43.0


From 52f778675280f90d397fe81ef7ef8fd1240f6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 051/122] fix: number of image fields is counted from zero in
 XML export

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 566fb5d..d6a08c4 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -915,7 +915,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 		curindex= *primary;
 	}
 
-	int image_count; // количество полей с типом image
+	int image_count = 0; // количество полей с типом image
 	for (auto field : fields) {
 		f.WriteString(fpart1);
 		f.WriteString(field->get_name());
-- 
2.43.0


From 1465a4b9d1b62fb080dd4000cb3eba2747ef3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 052/122] fix: every long value is saved to the directory of
 the exported table

---
 src/tool1cd/Table.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d6a08c4..194a5d5 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1008,8 +1008,8 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						outputvalue += repeat_count + 1;
 					}
 
-					dir /= outputvalue;
-					if(!field->save_blob_to_file(rec.get(), dir.string(), unpack)) {
+					boost::filesystem::path blob_path = dir / outputvalue;
+					if(!field->save_blob_to_file(rec.get(), blob_path.string(), unpack)) {
 						outputvalue = "{NULL}";
 						output_is_null = true;
 					}
-- 
2.43.0


From 6184f3a25bcc60d94be1befcb5818885d75bf156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 053/122] fix: repetition number in the name of a long value's
 file is written as digits

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 194a5d5..e0e36fb 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1005,7 +1005,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 					if(repeat_count)
 					{
 						outputvalue += "_";
-						outputvalue += repeat_count + 1;
+						outputvalue += to_string(repeat_count + 1);
 					}
 
 					boost::filesystem::path blob_path = dir / outputvalue;
-- 
2.43.0


From 6e59cad7d7bded33f688097420d2d4016b76433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 054/122] fix: a table without primary index is exported to XML
 with all its records

---
 src/tool1cd/Table.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index e0e36fb..4d94c81 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -937,7 +937,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	f.WriteString(part3);
 
 	if(curindex) numr = curindex->get_numrecords();
-	else numr = numrecords_found;
+	else numr = phys_numrecords;
 
 	msreg_g.Status(status);
 
@@ -952,10 +952,11 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 			msreg_g.Status(status + to_string(j));
 		}
 
-		f.Write(rpart1.c_str(), rpart1.size());
 		if(curindex) nr = curindex->get_numrec(j);
-		else nr = recordsindex[j];
+		else nr = j;
 		std::shared_ptr<TableRecord> rec (get_record(nr));
+		if(rec->is_removed()) continue;
+		f.Write(rpart1.c_str(), rpart1.size());
 		if (image_count) {
 			std::string filename = get_file_name_for_record(rec.get());
 			if (EqualIC(filename, recname)) {
-- 
2.43.0


From 870032c2711c0fb2c814c7c947a1b7da41de8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 055/122] fix: records with a null key are exported to XML

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 4d94c81..ee67010 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2387,7 +2387,7 @@ std::string Table::get_file_name_for_record(const TableRecord *rec) const
 				s += "_";
 			}
 			Field* tmp_field = record.field;
-			std::string tmp_str = rec->get_string(tmp_field);
+			std::string tmp_str = rec->is_null_value(tmp_field) ? std::string() : rec->get_string(tmp_field);
 
 			s += tmp_str;
 		}
-- 
2.43.0


From 90a5464be49628d5d2c4e058d23572219ea9eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 056/122] fix: names of long values' files are escaped in XML

---
 src/tool1cd/Table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ee67010..b18b56b 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1014,6 +1014,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						outputvalue = "{NULL}";
 						output_is_null = true;
 					}
+					outputvalue = toXML(outputvalue);
 				}
 				else outputvalue = "{ERROR}";
 			}
-- 
2.43.0


From 54b0e4f555c4f5cf724c74b0a214f3c52b0b3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 057/122] fix: text of a long value is taken by its length, not
 up to a zero byte

---
 src/tool1cd/FieldType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 32c7fe8..90ea691 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -773,7 +773,8 @@ string CommonFieldType::get_XML_presentation(const char *rec, const Table *paren
 			uint32_t *retyped = (uint32_t*)fr;
 			out = new TMemoryStream();
 			parent->readBlob(out, retyped[0], retyped[1]);
-			string s = toXML(string(static_cast<char*>(out->GetMemory()), 0, out->GetSize()));
+			auto bytes = out->GetBytes();
+			string s = toXML(string(bytes.begin(), bytes.end()));
 			delete out;
 			return s;
 		}
-- 
2.43.0


From d93360076057b15efbe96d7c33223d37aa3655ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 058/122] fix: index key of a record is made of its own fields,
 offset was added twice

---
 src/tool1cd/Index.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index b29d0a0..465482d 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -611,7 +611,9 @@ void Index::calcRecordIndex(const TableRecord *rec, char *indexBuf)
 {
 	int32_t index_buf_size = length;
 	for( const auto& record : records) {
-		uint32_t k = record.field->get_sort_key(rec->get_raw(record.field), (unsigned char *)indexBuf, index_buf_size);
+		// get_sort_key само прибавляет смещение поля к началу записи
+		const char *rec_data = rec->get_raw(record.field) - record.field->get_offset();
+		uint32_t k = record.field->get_sort_key(rec_data, (unsigned char *)indexBuf, index_buf_size);
 		indexBuf += k;
 		index_buf_size -= k;
 	}
-- 
2.43.0


From 544d9edf026234bd6eb41c2b8caa2e1ec7f2ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 059/122] fix: carriage returns are escaped in XML, otherwise a
 parser drops them

---
 src/tool1cd/Common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index a14feab..1bda119 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -157,6 +157,7 @@ std::string toXML(const std::string &in)
 	result = StringReplace(result, ">", "&gt;", rfReplaceAll);
 	result = StringReplace(result, "'", "&apos;", rfReplaceAll);
 	result = StringReplace(result, "\"", "&quot;", rfReplaceAll);
+	result = StringReplace(result, "\r", "&#13;", rfReplaceAll); // иначе при чтении XML возврат каретки теряется
 	return result;
 }
 
-- 
2.43.0


From aaa47d08f3bfeae7266e3154ed26ea66c1708afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 060/122] fix: files of exported long values have names which
 stay in the directory and do not repeat

---
 src/tool1cd/Table.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index b18b56b..ad29334 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <set>
 #include <string>
 #include <boost/filesystem.hpp>
 
@@ -945,6 +946,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 	repeat_count = 0;
 	bool dircreated = false;
 	boost::filesystem::path dir(_filename + ".blob");
+	std::set<std::string> used_names; // имена уже сохраненных файлов
 
 	for(j = 0; j < numr; j++)
 	{
@@ -1009,6 +1011,16 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						outputvalue += to_string(repeat_count + 1);
 					}
 
+					// имя файла не может содержать разделители пути и не должно повторяться
+					std::replace(outputvalue.begin(), outputvalue.end(), '/', '_');
+					std::replace(outputvalue.begin(), outputvalue.end(), '\\', '_');
+					string unique_name = outputvalue;
+					for (int k = 2; unique_name.empty() || unique_name == "." || unique_name == ".."
+							|| !used_names.insert(LowerCase(unique_name)).second; k++) {
+						unique_name = outputvalue + "_" + to_string(k);
+					}
+					outputvalue = unique_name;
+
 					boost::filesystem::path blob_path = dir / outputvalue;
 					if(!field->save_blob_to_file(rec.get(), blob_path.string(), unpack)) {
 						outputvalue = "{NULL}";
-- 
2.43.0


From 26c836ac2783836c6164d8c564356fb7e1f06a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 061/122] fix: length of a users list mask is an unsigned byte

---
 src/tool1cd/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index d67e065..d379001 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -286,7 +286,7 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 			blob_stream->Seek(0, soFromBeginning);
 			blob_stream->Read(_bb, stream_size);
 
-			size_t xor_mask_size = _bb[0];
+			size_t xor_mask_size = static_cast<unsigned char>(_bb[0]);
 			char *_xor_mask = &_bb[1];
 			char *_xor_buf = &_xor_mask[xor_mask_size];
 			size_t data_size = stream_size - xor_mask_size - 1;
-- 
2.43.0


From 318e687a473b936ca36603680fbd1d4a4d0e943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 062/122] fix: an empty part of a value storage is saved as an
 empty file

---
 src/tool1cd/Field.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index d379001..d12bb93 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -403,7 +403,9 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				else
 				{
 					_s->SetSize(0);
-					_s->CopyFrom(_s2, _s2->GetSize() - 8);
+					if (_s2->GetSize() > 8) {
+						_s->CopyFrom(_s2, _s2->GetSize() - 8);
+					}
 				}
 
 			}
@@ -423,7 +425,9 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 						if(len1C <= _s2->GetSize() - 12)
 						{
 							_s->SetSize(0);
-							_s->CopyFrom(_s2, len1C);
+							if (len1C != 0) {
+								_s->CopyFrom(_s2, len1C);
+							}
 						}
 					}
 				}
-- 
2.43.0


From 2f743b26eeea9799f9ec28bf924c07dfa5171a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 063/122] fix: an empty packed value is saved as an empty file

---
 src/tool1cd/Field.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Field.cpp b/src/tool1cd/Field.cpp
index d12bb93..81550de 100755
--- a/src/tool1cd/Field.cpp
+++ b/src/tool1cd/Field.cpp
@@ -349,8 +349,9 @@ bool Field::save_blob_to_file(const TableRecord *rec, const std::string &_filena
 				}
 			}
 
-			V8Catalog *cat = new V8Catalog(_sx2, zippedContainer, true);
-			if(!cat->get_first())
+			// по пустому потоку был бы создан пустой контейнер
+			V8Catalog *cat = _sx2->GetSize() != 0 ? new V8Catalog(_sx2, zippedContainer, true) : nullptr;
+			if(cat == nullptr || !cat->get_first())
 			{
 				TFileStream temp_stream(boost::filesystem::path(_filename), fmCreate);
 				temp_stream.CopyFrom(_sx2, 0);
-- 
2.43.0


From b7bc5a3f1c14998e7670d3316f94bd173968b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 064/122] fix: import of a table into an 8.3.8 base writes the
 version of an object to its place, not over its length

---
 src/tool1cd/Table.cpp | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index ad29334..4de7f02 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1174,6 +1174,17 @@ void Table::export_table(const boost::filesystem::path &path) const
 
 }
 
+//---------------------------------------------------------------------------
+// версия объекта на его заголовочной странице
+static _version& object_version(T_1CD *base, uint32_t block_number)
+{
+	char *page = base->get_block_for_write(block_number, true);
+	if (base->get_version() >= db_ver::ver8_3_8_0) {
+		return reinterpret_cast<v838ob_data*>(page)->version;
+	}
+	return reinterpret_cast<v8ob*>(page)->version;
+}
+
 //---------------------------------------------------------------------------
 void Table::import_table(const boost::filesystem::path &path)
 {
@@ -1185,7 +1196,6 @@ void Table::import_table(const boost::filesystem::path &path)
 
 	TFileStream* f;
 	bool fopen;
-	v8ob* ob;
 
 	bool descr_changed = false;
 
@@ -1223,9 +1233,9 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_data->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_data->get_block_number(), true);
-			ob->version.version_1 = root.data_version_1;
-			ob->version.version_2 = root.data_version_2;
+			auto &version = object_version(base, file_data->get_block_number());
+			version.version_1 = root.data_version_1;
+			version.version_2 = root.data_version_2;
 			delete f;
 		}
 	}
@@ -1250,9 +1260,9 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_blob->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_blob->get_block_number(), true);
-			ob->version.version_1 = root.blob_version_1;
-			ob->version.version_2 = root.blob_version_2;
+			auto &version = object_version(base, file_blob->get_block_number());
+			version.version_1 = root.blob_version_1;
+			version.version_2 = root.blob_version_2;
 			delete f;
 		}
 	}
@@ -1277,9 +1287,9 @@ void Table::import_table(const boost::filesystem::path &path)
 				descr_changed = true;
 			}
 			file_index->set_data(f);
-			ob = (v8ob*)base->get_block_for_write(file_index->get_block_number(), true);
-			ob->version.version_1 = root.index_version_1;
-			ob->version.version_2 = root.index_version_2;
+			auto &version = object_version(base, file_index->get_block_number());
+			version.version_1 = root.index_version_1;
+			version.version_2 = root.index_version_2;
 			delete f;
 		}
 	}
@@ -1301,9 +1311,9 @@ void Table::import_table(const boost::filesystem::path &path)
 		if(fopen)
 		{
 			if(!descr_table) descr_table = new V8Object(base); // вообще, если descr_table == nullptr, то это огромная ошибка!
-			ob = (v8ob*)base->get_block_for_write(descr_table->get_block_number(), true);
-			ob->version.version_1 = root.descr_version_1;
-			ob->version.version_2 = root.descr_version_2;
+			auto &version = object_version(base, descr_table->get_block_number());
+			version.version_1 = root.descr_version_1;
+			version.version_2 = root.descr_version_2;
 
 			auto buf_size = f->GetSize();
 			char *buf = new char[buf_size];
-- 
2.43.0


From 34e68d0d7e6e45050fddc39ae57fe77c8a196234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 065/122] fix: a long value is never read longer than its
 length, a loop in its chain is an error

---
 src/tool1cd/Table.cpp | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 4de7f02..3c44b5e 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -734,10 +734,11 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	char* _curb;
 	uint16_t _curlen;
 	uint32_t _filelen, _numblock;
-	uint32_t startlen;
+	uint32_t readed = 0;
+	uint32_t _chain = 0; // количество пройденных блоков
+	bool _overflow = false;
 
 	if(rewrite) _str->SetSize(0);
-	startlen = _str->GetPosition();
 
 	if(!_startblock && _length)
 	{
@@ -758,8 +759,9 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 		_curblock = _startblock;
 		while(_curblock)
 		{
-			if(_curblock >= _numblock)
+			if(_curblock >= _numblock || ++_chain > _numblock)
 			{
+				delete[] _curb;
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
 					.add_detail("Таблица", name)
 					.add_detail("Всего блоков", _numblock)
@@ -770,23 +772,29 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
 			{
+				delete[] _curb;
 				throw DetailedException("Попытка чтения из блока файла Blob более 250 байт")
 					.add_detail("Таблица", name)
 					.add_detail("Индекс блока", _curblock)
 					.add_detail("Читаемых байт", _curlen);
 			}
-			_str->Write(_curb + 6, _curlen);
+			uint32_t _rest = _length - readed;
+			_str->Write(_curb + 6, std::min<uint32_t>(_curlen, _rest));
+			readed += std::min<uint32_t>(_curlen, _rest);
 
-			if(_str->GetSize() - startlen > _length) break; // аварийный выход из возможного ошибочного зацикливания
+			if(_curlen > _rest) { // данных больше, чем длина значения
+				_overflow = true;
+				break;
+			}
 		}
 		delete[] _curb;
 
-		if(_str->GetSize() - startlen != _length)
+		if(_overflow || readed != _length)
 		{
 			msreg_g.AddDebugMessage("Несовпадение длины Blob-поля, указанного в записи, с длиной практически прочитанных данных", MessageState::Warning)
 				.with("Таблица", name)
 				.with("Длина поля", _length)
-				.with("Прочитано", _str->GetSize() - startlen);
+				.with("Прочитано", readed);
 		}
 	}
 	else
@@ -808,6 +816,8 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	uint16_t _curlen;
 	uint32_t _filelen, _numblock;
 	uint32_t readed;
+	uint32_t _chain = 0; // количество пройденных блоков
+	bool _overflow = false;
 
 	if(!_startblock && _length)
 	{
@@ -831,8 +841,9 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 		_curblock = _startblock;
 		while(_curblock)
 		{
-			if(_curblock >= _numblock)
+			if(_curblock >= _numblock || ++_chain > _numblock)
 			{
+				delete[] _curb;
 				throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
 					.add_detail("Таблица", name)
 					.add_detail("Всего блоков", _numblock)
@@ -843,20 +854,25 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
 			{
+				delete[] _curb;
 				throw DetailedException("Попытка чтения из блока файла Blob более 250 байт")
 					.add_detail("Таблица", name)
 					.add_detail("Индекс блока", _curblock)
 					.add_detail("Читаемых байт", _curlen);
 			}
-			memcpy(_buf, _curb + 6, _curlen);
-			_buf += _curlen;
-			readed += _curlen;
+			uint32_t _rest = _length - readed;
+			memcpy(_buf, _curb + 6, std::min<uint32_t>(_curlen, _rest));
+			_buf += std::min<uint32_t>(_curlen, _rest);
+			readed += std::min<uint32_t>(_curlen, _rest);
 
-			if(readed > _length) break; // аварийный выход из возможного ошибочного зацикливания
+			if(_curlen > _rest) { // данных больше, чем длина значения
+				_overflow = true;
+				break;
+			}
 		}
 		delete[] _curb;
 
-		if(readed != _length)
+		if(_overflow || readed != _length)
 		{
 			msreg_g.AddDebugMessage("Несовпадение длины Blob-поля, указанного в записи, с длиной практически прочитанных данных", MessageState::Warning)
 				.with("Таблица", name)
-- 
2.43.0


From ced25c6951973ec721b9c675964f38b447d930f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 066/122] fix: a stored value which only begins as packed data
 is copied without its unpacked beginning

---
 src/tool1cd/TableRecord.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 7ded7bf..839e42c 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -185,11 +185,7 @@ bool TableRecord::try_store_blob_data(const Field *field, TStream *&out, bool in
 		TMemoryStream in;
 		table->readBlob(&in, b.blob_start, b.blob_length);
 		in.Seek(0, soFromBeginning);
-		try {
-			ZInflateStream(&in, out);
-		} catch (ZError) {
-			out->CopyFrom(&in, 0);
-		}
+		ZInflateOrCopy(&in, out);
 	}
 	else {
 		table->readBlob(out, b.blob_start, b.blob_length);
-- 
2.43.0


From 781b050e9d77ed673babe4b6c0b2d7f916e66c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 067/122] fix: packing of an index page does not look past the
 end of the last key

---
 src/tool1cd/Index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 465482d..b6cbb36 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -515,12 +515,12 @@ bool Index::pack_leafpage(char* unpack_index, uint32_t number_indexes, char* pag
 
 		if(i)
 		{
-			for(j = 0; cur[j] == cur[j - step] && j < length; j++);
+			for(j = 0; j < length && cur[j] == cur[j - step]; j++);
 			left = j;
 		}
 		else left = 0;
 
-		for(j = 1; cur[length - j] == 0 && j <= length; j++);
+		for(j = 1; j <= length && cur[length - j] == 0; j++);
 		right = j - 1;
 
 
-- 
2.43.0


From 670da1ba70541bc79f0b7477b5eef0d1a5c55e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 068/122] fix: the last entry of a full index page is not read
 past the end of the page

---
 src/tool1cd/Index.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index b6cbb36..64b5bf6 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -132,7 +132,9 @@ void Index::create_recordsindex() const
 			char *rbuf = buf + 30;
 			for (int32_t i = 0; i < curlen; i++)
 			{
-				recordsindex[curindex++] = *(uint32_t*)rbuf & mask;
+				uint32_t numrec = 0;
+				memcpy(&numrec, rbuf, std::min<size_t>(sizeof(numrec), buf + pagesize - rbuf));
+				recordsindex[curindex++] = numrec & mask;
 				rbuf += rlen;
 				if(curindex % 10000 == 0) {
 					msreg_g.Status(string("Чтение индекса ") + to_string(curindex));
@@ -210,7 +212,8 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 
 			for (unsigned i = 0; i < curlen; i++)
 			{
-				int64_t indrec = *(int64_t*)rbuf;
+				int64_t indrec = 0;
+				memcpy(&indrec, rbuf, std::min<size_t>(sizeof(indrec), buf + pagesize - rbuf));
 				unsigned numrec = indrec & numrecmask;
 				indrec >>= numrecbits;
 				unsigned left =  indrec & leftmask;
@@ -444,7 +447,8 @@ char* Index::unpack_leafpage(char* page, uint32_t& number_indexes)
 
 	for(i = 0; i < number_indexes; i++)
 	{
-		int64_t indrec = *(int64_t*)rbuf;
+		int64_t indrec = 0;
+		memcpy(&indrec, rbuf, std::min<size_t>(sizeof(indrec), page + pagesize - rbuf));
 		unsigned numrec = indrec & numrecmask;
 		indrec >>= numrecbits;
 		unsigned left = indrec & leftmask;
-- 
2.43.0


From 4c2b21d5dea181c4fe6582b7b65e4ab5c8d7c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 069/122] fix: numbers in an index dump are written as digits

---
 src/tool1cd/Index.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 64b5bf6..72d447b 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -191,21 +191,21 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 
 			{
 				string s = "=";
-				s += level;
+				s += to_string(level);
 				s += " leaf, curblock ";
-				s += curblock == LAST_PAGE ? -1 : (curblock / pagesize);
+				s += curblock == LAST_PAGE ? string("-1") : to_string(curblock / pagesize);
 				s += ", count ";
-				s += curlen;
+				s += to_string(curlen);
 				s += ", free ";
-				s += lph->freebytes;
+				s += to_string(lph->freebytes);
 				s += ", rec ";
-				s += numrecbits;
+				s += to_string(numrecbits);
 				s += ", left ";
-				s += leftbits;
+				s += to_string(leftbits);
 				s += ", right ";
-				s += lph->rightbits;
+				s += to_string(lph->rightbits);
 				s += ", bytes ";
-				s += recbytes;
+				s += to_string(recbytes);
 				s += "\r\n";
 				f->WriteString(s);
 			}
@@ -227,7 +227,7 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 				previous_right = right;
 
 				string s = "  -";
-				s += level;
+				s += to_string(level);
 				s += ": ";
 				f->Write(s.c_str(), s.size());
 				for(j = 0; j < length; j++)
@@ -246,7 +246,7 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 					f->Write(bf, 3);
 				}
 				s = ": ";
-				s += numrec;
+				s += to_string(numrec);
 				s += "\r\n";
 				f->Write(s.c_str(), s.size());
 			}
@@ -256,11 +256,11 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 		else
 		{
 			string s = "*";
-			s += level;
+			s += to_string(level);
 			s += " branch, curblock ";
-			s += curblock == LAST_PAGE ? -1 : (curblock / pagesize);
+			s += curblock == LAST_PAGE ? string("-1") : to_string(curblock / pagesize);
 			s += ", count ";
-			s += curlen;
+			s += to_string(curlen);
 			s += "\r\n";
 			f->Write(s.c_str(), s.size());
 
@@ -278,7 +278,7 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 				dump_recursive(file_index, f, level + 1, blockx);
 
 				s = "  +";
-				s += level;
+				s += to_string(level);
 				s += ": ";
 				f->Write(s.c_str(), s.size());
 				for (unsigned j = 0; j < length; j++)
@@ -297,7 +297,7 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 					f->Write(bf, 3);
 				}
 				s = ": ";
-				s += numrecx;
+				s += to_string(numrecx);
 				s += "\r\n";
 				f->Write(s.c_str(), s.size());
 
-- 
2.43.0


From 0f4ba0b3c3a760e0b0e423b5dcc2533b7ef1d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 070/122] fix: previous key on an index page is compared on
 64-bit systems too, its offset wrapped around

---
 src/tool1cd/Index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 72d447b..bb3e93c 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -519,7 +519,7 @@ bool Index::pack_leafpage(char* unpack_index, uint32_t number_indexes, char* pag
 
 		if(i)
 		{
-			for(j = 0; j < length && cur[j] == cur[j - step]; j++);
+			for(j = 0; j < length && cur[j] == *(cur + j - step); j++);
 			left = j;
 		}
 		else left = 0;
-- 
2.43.0


From 763c5a3385a1df0c2d57a2f3cc208021ce665fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 071/122] fix: byte order mark of a parsed stream is skipped

---
 src/tool1cd/SystemClasses/TStreamReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tool1cd/SystemClasses/TStreamReader.cpp b/src/tool1cd/SystemClasses/TStreamReader.cpp
index c4ca7a3..b71b70e 100644
--- a/src/tool1cd/SystemClasses/TStreamReader.cpp
+++ b/src/tool1cd/SystemClasses/TStreamReader.cpp
@@ -28,6 +28,14 @@ namespace Classes {
 TStreamReader::TStreamReader(TStream *stream, bool DetectBOM)
 	: stream(stream)
 {
+	if (DetectBOM) {
+		const uint8_t utf8_bom[] = {0xEF, 0xBB, 0xBF};
+		uint8_t data[sizeof(utf8_bom)];
+		auto position = stream->GetPosition();
+		if (stream->Read(data, sizeof(data)) != sizeof(data) || !std::equal(data, data + sizeof(data), utf8_bom)) {
+			stream->Seek(position, soFromBeginning);
+		}
+	}
 }
 
 int TStreamReader::Read()
-- 
2.43.0


From 32e41c3d17c4f08c4305e2a4eb6217c16cfd8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 072/122] fix: identifier of a dynamic update is taken whole
 from the file name

---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 81a66d8..1af1ce9 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -641,7 +641,7 @@ ConfigStorageTableConfig::ConfigStorageTableConfig(TableFiles* tabf, T_1CD* _bas
 		{
 			auto m = name.rfind(sdynupdate);
 			if (m != string::npos) {
-				string update_id = name.substr(m + lsdynupdate - 1, name.size() - m - lsdynupdate);
+				string update_id = name.substr(m + lsdynupdate);
 				name = name.substr(0, m);
 				BinaryGuid update_guid = BinaryGuid(update_id);
 				if (!dynup.empty()) {
-- 
2.43.0


From 1715b1ab8ec537d4a83e5c6d5773f4039d210137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 073/122] fix: names of updated files keep their last character
 in the main configuration

---
 src/tool1cd/ConfigStorage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 1af1ce9..abf9364 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -791,7 +791,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 
 		m = s.rfind(spoint);
 		if (m != string::npos) {
-			name = s.substr(0, m - 1);
+			name = s.substr(0, m);
 			ext = s.substr(m + 1, s.size() - m);
 		}
 		else
@@ -808,7 +808,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 		m = name.find(sdynupdate);
 		if (m != string::npos) {
 			string s = name.substr(m + lsdynupdate, name.size() - m - lsdynupdate + 1);
-			name = name.substr(0, m - 1);
+			name = name.substr(0, m);
 			string_to_GUID(s, &g);
 			if (!dynup.empty())
 			{
-- 
2.43.0


From 7f04b2272ee25bf7756961dbdd3540a9d8f34274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 074/122] fix: files deleted from the edited configuration are
 matched by their names

---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index abf9364..257c9b4 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -735,7 +735,7 @@ ConfigStorageTableConfigSave::ConfigStorageTableConfigSave(TableFiles* tabc, Tab
 			throw ex;
 		}
 		for (auto &guid : dynup) {
-			del.insert(LowerCase(guid.as_MS()));
+			del.insert(LowerCase(guid.as_1C()));
 		}
 	}
 
-- 
2.43.0


From 525e58aace94e21f9f87adefce7dfd1360d16c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 075/122] fix: names of edited extension files keep their last
 character

---
 src/tool1cd/ConfigStorage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 257c9b4..4c04be1 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -1000,7 +1000,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 	{
 		if (EqualIC(ptf.first.substr(0, struid_len), struid)) {
 			TableFile *tf = ptf.second;
-			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len, tf->name.size() - struid_len - 1));
+			auto pcf = new ContainerFile(tf, tf->name.substr(struid_len));
 			if (EqualIC(pcf->name, "configinfo")) {
 				configinfo = pcf;
 			}
@@ -1032,7 +1032,7 @@ ConfigStorageTableConfigCasSave::ConfigStorageTableConfigCasSave(TableFiles *tab
 		files["configinfo"] = configinfo;
 	}
 	else {
-		config_info_path = present + "\\" + struid_len + "configinfo";
+		config_info_path = present + "\\" + struid + "configinfo";
 	}
 
 	configinfo->open();
-- 
2.43.0


From ab7777afeb8fa331797671f1c4d4d5c7ce3a55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 076/122] fix: names on the way of a nested path keep their
 last character

---
 src/tool1cd/ConfigStorage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 4c04be1..b550828 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -126,7 +126,7 @@ ConfigFile* ConfigStorageCFFile::readfile(const std::string &path)
 	V8Catalog* c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		V8File *f = c->get_file(fname.substr(0, i - 1));
+		V8File *f = c->get_file(fname.substr(0, i));
 		if(!f) {
 			return nullptr;
 		}
@@ -164,7 +164,7 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	c = cat;
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
-		c = c->CreateCatalog(fname.substr(0, i - 1));
+		c = c->CreateCatalog(fname.substr(0, i));
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
@@ -202,7 +202,7 @@ bool ConfigStorageCFFile::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 	V8File *f = cat->get_file(fname);
 	return f != nullptr;
@@ -422,7 +422,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 	{
 		auto i = fname.find("\\");
 		if (i != string::npos) {
-			top_level_name = fname.substr(0, i - 1);
+			top_level_name = fname.substr(0, i);
 			fname = fname.substr(i + 1, fname.size() - i - 1);
 		} else {
 			top_level_name = fname;
@@ -443,7 +443,7 @@ ConfigFile* ConfigStorageTable::readfile(const std::string &path)
 		}
 		V8Catalog *parent_cat = top_file->cat;
 		for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\")) {
-			V8File *f = parent_cat->get_file(fname.substr(0, i - 1));
+			V8File *f = parent_cat->get_file(fname.substr(0, i));
 			if (!f) {
 				// TODO: бросить исключение???
 				return nullptr;
@@ -564,7 +564,7 @@ bool ConfigStorageTable::fileexists(const std::string &path) const
 	string fname = StringReplace(path, "/", "\\", rfReplaceAll);
 	auto i = fname.find("\\");
 	if (i != string::npos) {
-		fname = fname.substr(0, i - 1);
+		fname = fname.substr(0, i);
 	}
 
 	return files.find(LowerCase(fname)) != files.end();
-- 
2.43.0


From 66c20206c234a594e2a19705a04be0e6fe6fb785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 077/122] fix: an empty object in a pack is returned empty

---
 src/tool1cd/Packdata.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Packdata.cpp b/src/tool1cd/Packdata.cpp
index 782ff81..1aea122 100755
--- a/src/tool1cd/Packdata.cpp
+++ b/src/tool1cd/Packdata.cpp
@@ -64,7 +64,9 @@ TStream* Packdata::get_data(const char* datahash, bool &found) {
 			int64_t packlen = 0;
 			pack->Read(&packlen, sizeof(packlen));
 			buffer = new TTempStream;
-			buffer->CopyFrom(pack.get(), packlen);
+			if (packlen > 0) {
+				buffer->CopyFrom(pack.get(), packlen);
+			}
 			buffer->Close();
 			found = true;
 		}
-- 
2.43.0


From 12b81aaa955f71964c6f55cb874af433a6bb00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 078/122] fix: a dump of a depot without object history no
 longer dereferences a null record

---
 src/tool1cd/save_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_depot_config.cpp b/src/tool1cd/save_depot_config.cpp
index 928026e..8af37e2 100644
--- a/src/tool1cd/save_depot_config.cpp
+++ b/src/tool1cd/save_depot_config.cpp
@@ -273,7 +273,7 @@ bool T_1CD::save_depot_config(const string &_filename, int32_t ver)
 	bool lastremoved = true;
 
 	BinaryGuid curobj;
-	for (uint32_t iHistory_Index = 0; iHistory_Index <= HistoryIndex_numrec; iHistory_Index++)
+	for (uint32_t iHistory_Index = 0; HistoryIndex_numrec > 0 && iHistory_Index <= HistoryIndex_numrec; iHistory_Index++)
 	{
 		if(iHistory_Index < HistoryIndex_numrec)
 		{
-- 
2.43.0


From 26056dd162389d8cc870a2a0e09253e304290a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 079/122] fix: a partial depot dump compares the data of an
 object before and after the range

---
 src/tool1cd/save_part_depot_config.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index a2dc786..79df17d 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -293,12 +293,10 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 									auto b = rech1->get<table_blob_file>(fldh_objdata);
 									if (!rech1->is_null_value(fldh_objdata) && (b.blob_start != 0 || b.blob_length != 0)) {
 
-										table_history->readBlob(out, b.blob_start, b.blob_length);
-
 										auto b2 = rech2->get<table_blob_file>(fldh_objdata);
 										if (!rech2->is_null_value(fldh_objdata) && (b2.blob_start != 0 || b2.blob_length != 0)) {
-										{
-											table_history->readBlob(out, b2.blob_start, b2.blob_length);
+											table_history->readBlob(out, b.blob_start, b.blob_length);
+											table_history->readBlob(in, b2.blob_start, b2.blob_length);
 											inreaded = true;
 											if (in->GetSize() == out->GetSize()) {
 												if(memcmp(in->GetMemory(), out->GetMemory(), in->GetSize()) == 0) {
@@ -310,8 +308,9 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 									else if(depotVer >= depot_ver::Ver6)
 									{
 										// TODO: тип под Datahash
-									}
-										if (memcmp(rech2->get_data(fldh_datahash)
+										if (!rech1->is_null_value(fldh_datahash)
+												&& !rech2->is_null_value(fldh_datahash)
+												&& memcmp(rech2->get_data(fldh_datahash)
 												, rech1->get_data(fldh_datahash)
 												, fldh_datahash->get_length()) == 0) {
 											changed = false;
-- 
2.43.0


From edd1e991ae8e6885c936a765c64507adcdc02bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 080/122] fix: the list of deleted objects goes into the
 directory of a partial depot dump

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 79df17d..f415c34 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -495,7 +495,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	delete sw;
 	if(hasdeleted)
 	{
-		f = new TFileStream(root_path / "deleted", fmCreate);
+		f = new TFileStream(filepath / "deleted", fmCreate);
 		f->CopyFrom(sd, 0);
 		delete f;
 	}
-- 
2.43.0


From 8860a0e62da294230d2d38e0651036ba21f83c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 081/122] fix: a partial dump of a depot without object history
 no longer dereferences a null record

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index f415c34..6dc6f24 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -242,7 +242,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 	cat = nullptr;
 	hasrech1 = false;
 	hasrech2 = false;
-	for (uint32_t history_iterator = 0, external_iterator = 0; history_iterator <= history_records; history_iterator++) {
+	for (uint32_t history_iterator = 0, external_iterator = 0; history_records > 0 && history_iterator <= history_records; history_iterator++) {
 		uint32_t i;
 		if (history_iterator < history_records) {
 			i = history_pk->get_numrec(history_iterator);
-- 
2.43.0


From c525ba1a5fd3681c580e33b64c268f9197ff44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 082/122] fix: a partial depot dump names the files of objects
 as a whole dump does

---
 src/tool1cd/save_part_depot_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 6dc6f24..670e96e 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -255,7 +255,7 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 				if(hasrech2)
 				{
 					lastver = ToIntDef(rech2->get_string(fldh_vernum), numeric_limits<int32_t>::max());
-					string sObjId = rech2->get_string(fldh_objid);
+					string sObjId = rech2->get<BinaryGuid>(fldh_objid).as_MS();
 
 					hasext = true;
 					bool removed = rech2->get<bool>(fldh_removed);
-- 
2.43.0


From cef8ed51d1cb985734fbc67b854eb8440703aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 083/122] fix: errors reported by ctool1cd are reflected in its
 exit status

---
 src/tool1cd/Messenger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b104b9b..b3cc163 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -44,6 +44,9 @@ void Messenger::Status(const string &message)
 //---------------------------------------------------------------------------
 void Messenger::AddDetailedMessage(const string &message, const MessageState mstate, const TStringList *param)
 {
+	if (mstate == MessageState::Error) {
+		has_error = true;
+	}
 	if (mstate < minimal_state) {
 		return;
 	}
-- 
2.43.0


From cb4324c6f837d183b55e9df7f201ebec9a8e3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 084/122] fix: -noverbose suppresses console messages

---
 src/tool1cd/Messenger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool1cd/Messenger.cpp b/src/tool1cd/Messenger.cpp
index b3cc163..8518639 100644
--- a/src/tool1cd/Messenger.cpp
+++ b/src/tool1cd/Messenger.cpp
@@ -51,6 +51,10 @@ void Messenger::AddDetailedMessage(const string &message, const MessageState mst
 		return;
 	}
 
+	if (noverbose && logfile.empty()) {
+		return;
+	}
+
 	shared_ptr<ostream> output (&cerr, [](...){} );
 
 	if (!logfile.empty()) {
-- 
2.43.0


From e00141a12968f795fe978c2ea76d96353aff6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 085/122] fix: an argument ending with several quotes no longer
 hangs the command line parser

---
 src/ctool1cd/ParseCommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctool1cd/ParseCommandLine.cpp b/src/ctool1cd/ParseCommandLine.cpp
index 7b5429b..b287c5b 100755
--- a/src/ctool1cd/ParseCommandLine.cpp
+++ b/src/ctool1cd/ParseCommandLine.cpp
@@ -165,8 +165,8 @@ std::string dequote(const std::string &str)
 	if (result.front() == '\"' && result.back() == '\"') {
 		result = result.substr(1, result.size() - 2);
 	}
-	while (result.back() == '\"') {
-		result = result.substr(0, str.size() - 1);
+	while (!result.empty() && result.back() == '\"') {
+		result.pop_back();
 	}
 	return result;
 }
-- 
2.43.0


From d8f38556a1ac9e8d19269a4fd6d320a434ecfa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 086/122] fix: ctool1cd reports a database that cannot be
 opened instead of aborting

---
 src/ctool1cd/App.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 2dde0f7..4121ce6 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -595,7 +595,17 @@ int App::Run()
 		return CTOOL_1CD_FILE_NOT_EXISTS;
 	}
 
-	base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	try {
+		base1CD.reset(new T_1CD(dbpath.string(), &mess, !ActionOpenBaseNotMonopolyChecked));
+	}
+	catch (DetailedException &ex) {
+		ex.show();
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
+	catch (std::exception &ex) {
+		msreg_g.AddError(ex.what());
+		return CTOOL_1CD_FILE_NOT_OPEN;
+	}
 
 	if (base1CD->is_open()) {
 		msreg_g.AddMessage ("База данных 1CD открыта", MessageState::Succesfull)
-- 
2.43.0


From b87377e9421a1dcbfad74e975c0e05ccbc17ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 087/122] fix: in table name masks only * and ? are special,
 and ? stands for one character

---
 src/ctool1cd/App.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 4121ce6..9b807a1 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -46,6 +46,31 @@ const string DATABASE_CONFIG_DEFAULT_NAME() {
 	return string("dbcf") + CF_STR;
 }
 
+// Преобразует маску имени (со знаками подстановки * и ?) в регулярное выражение,
+// все прочие символы маски обозначают сами себя
+static string mask_to_regex(const string &mask)
+{
+	string result;
+	for (char c : mask) {
+		switch (c) {
+			case '*':
+				result += ".*";
+				break;
+			case '?':
+				result += "[^\\x80-\\xBF][\\x80-\\xBF]*"; // один символ UTF-8
+				break;
+			case '.': case '[': case ']': case '{': case '}': case '(': case ')':
+			case '\\': case '+': case '|': case '^': case '$':
+				result += '\\';
+				result += c;
+				break;
+			default:
+				result += c;
+		}
+	}
+	return result;
+}
+
 static int object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
@@ -107,8 +132,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
-	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
-	filter = StringReplace(filter, "?", ".", rfReplaceAll);
+	filter = mask_to_regex(filter);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
 	filter = StringReplace(filter, "\t", "\n", rfReplaceAll);
 	filter = StringReplace(filter, ",", "\n", rfReplaceAll);
@@ -170,8 +194,7 @@ void App::export_to_binary(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
-	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
-	filter = StringReplace(filter, "?", ".", rfReplaceAll);
+	filter = mask_to_regex(filter);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
 	filter = StringReplace(filter, "\t", "\n", rfReplaceAll);
 	filter = StringReplace(filter, ",", "\n", rfReplaceAll);
@@ -233,8 +256,7 @@ void App::import_from_binary(const ParsedCommand &pc)
 	}
 
 	string filter(pc.param2);
-	filter = StringReplace(filter, "*", ".*", rfReplaceAll);
-	filter = StringReplace(filter, "?", ".", rfReplaceAll);
+	filter = mask_to_regex(filter);
 	filter = StringReplace(filter, " ", "\n", rfReplaceAll);
 	filter = StringReplace(filter, "\t", "\n", rfReplaceAll);
 	filter = StringReplace(filter, ",", "\n", rfReplaceAll);
-- 
2.43.0


From 08d368a21240106f33cca1b32f95aaf894dfda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 088/122] fix: a file that cannot be opened is an error, and
 reading does not require permission to write

---
 src/tool1cd/SystemClasses/TFileStream.cpp | 39 +++++++++++++++--------
 src/tool1cd/SystemClasses/TFileStream.hpp |  1 +
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/tool1cd/SystemClasses/TFileStream.cpp b/src/tool1cd/SystemClasses/TFileStream.cpp
index 2967e58..495f0ea 100644
--- a/src/tool1cd/SystemClasses/TFileStream.cpp
+++ b/src/tool1cd/SystemClasses/TFileStream.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include "TFileStream.hpp"
+#include "Exception.hpp"
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/fstream.hpp>
 
@@ -26,26 +27,39 @@ namespace System {
 
 namespace Classes {
 
-TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
-	: TWrapperStream(), filename(FileName)
+static std::ios_base::openmode open_mode(const uint16_t fileMode)
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
+	std::ios_base::openmode mode = std::ios::binary | std::ios::in;
 	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
+		return mode | std::ios::out | std::ios::trunc;
+	}
+	if (fileMode & fmOpenReadWrite) {
+		mode |= std::ios::out;
+	}
+	return mode;
+}
+
+static std::shared_ptr<std::fstream> open_file(const boost::filesystem::path &path, std::ios_base::openmode mode)
+{
+	auto stream = std::make_shared<boost::filesystem::fstream>(path, mode);
+	if (!stream->is_open()) {
+		throw Exception("Не удалось открыть файл " + path.string());
 	}
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	return stream;
+}
+
+TFileStream::TFileStream(const std::string &FileName, const uint16_t fileMode)
+	: TWrapperStream(), filename(FileName), m_mode(open_mode(fileMode))
+{
+	_stream = open_file(boost::filesystem::path(filename), m_mode);
 	reopen(_stream);
 	m_position = 0;
 }
 
 TFileStream::TFileStream(const boost::filesystem::path &path, const uint16_t fileMode)
-	: TWrapperStream(), filename(path.string())
+	: TWrapperStream(), filename(path.string()), m_mode(open_mode(fileMode))
 {
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	if (fileMode == fmCreate) {
-		mode |= std::ios::trunc;
-	}
-	_stream = std::make_shared<boost::filesystem::fstream>(path, mode);
+	_stream = open_file(path, m_mode);
 	reopen(_stream);
 	m_position = 0;
 }
@@ -68,8 +82,7 @@ void TFileStream::Reopen()
 			return;
 		}
 	}
-	std::ios_base::openmode mode = std::ios::binary | std::ios::in | std::ios::out;
-	_stream = std::make_shared<boost::filesystem::fstream>(boost::filesystem::path(filename), mode);
+	_stream = open_file(boost::filesystem::path(filename), m_mode & ~std::ios::trunc);
 	reopen(_stream);
 }
 
diff --git a/src/tool1cd/SystemClasses/TFileStream.hpp b/src/tool1cd/SystemClasses/TFileStream.hpp
index 4d960c7..1a9cb89 100644
--- a/src/tool1cd/SystemClasses/TFileStream.hpp
+++ b/src/tool1cd/SystemClasses/TFileStream.hpp
@@ -58,6 +58,7 @@ public:
 
 protected:
 	std::string filename;
+	std::ios_base::openmode m_mode;
 	std::shared_ptr<std::fstream> _stream;
 };
 
-- 
2.43.0


From 3e30665111eb6ce483092198ea523850fc22cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 089/122] fix: the first version of a range given to
 -DumpPartDepotConfig is read completely

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 9b807a1..8a715e1 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -487,7 +487,7 @@ void App::save_depot_config_part(const ParsedCommand &pc)
 				.substr(splitter + 1, version_number_param.size() - splitter - 1)
 				, 0);
 		begin_version = ToIntDef(version_number_param
-				.substr(0, splitter - 1)
+				.substr(0, splitter)
 				, 0);
 	} else {
 		begin_version = ToIntDef(version_number_param, 0);
-- 
2.43.0


From 451fff2b9844abf23333e9d9d0afceee5f831f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 090/122] fix: lost objects are saved in the given directory

---
 src/tool1cd/Class_1CD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index fa87dd6..cbc1aaa 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -1894,7 +1894,7 @@ void T_1CD::find_and_save_lost_objects(boost::filesystem::path &lost_objects)
 			}
 			if(!block_is_find) {
 				unique_ptr<V8Object> find_v8obj(new V8Object(this, i));
-				find_v8obj->savetofile(lost_objects.string() + "block" + to_string(i));
+				find_v8obj->savetofile(lost_objects / ("block" + to_string(i)));
 			}
 		}
 	}
-- 
2.43.0


From aac3e49a4f993bcc450d2e81506f59884af7dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 091/122] fix: the length of an object is checked against the
 file and its list of blocks

---
 src/tool1cd/Class_1CD.cpp |  6 ++++++
 src/tool1cd/Class_1CD.h   |  1 +
 src/tool1cd/V8Object.cpp  | 38 +++++++++++++++++++++++++++++++++++++-
 src/tool1cd/V8Object.h    |  1 +
 4 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index cbc1aaa..63c0a7f 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -110,6 +110,12 @@ char*  T_1CD::get_block_for_write(uint32_t block_number, bool read)
 	return memBlockManager.get_block_for_write(block_number, read);
 }
 
+//---------------------------------------------------------------------------
+uint64_t T_1CD::get_file_length() const
+{
+	return (uint64_t)length * pagesize;
+}
+
 //---------------------------------------------------------------------------
 int32_t T_1CD::get_numtables()
 {
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index 534e81a..c9e781c 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -243,6 +243,7 @@ public:
 	std::string get_filename() const;
 	const boost::filesystem::path &get_filepath() const;
 	uint32_t get_pagesize() const;
+	uint64_t get_file_length() const; // длина файла базы в байтах
 
 	SupplierConfigs& supplier_configs();
 
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index f08d097..e394b90 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -73,6 +73,16 @@ void V8Object::init()
 	fatlevel = 0;
 }
 
+//---------------------------------------------------------------------------
+void V8Object::bad_length(int32_t blockNum)
+{
+	uint64_t bad_len = len;
+	init();
+	throw DetailedException("Ошибка получения объекта из блока. Длина объекта больше возможной.")
+		.add_detail("Блок", to_hex_string(blockNum))
+		.add_detail("Длина объекта", bad_len);
+}
+
 //---------------------------------------------------------------------------
 void V8Object::init(T_1CD* _base, int32_t blockNum)
 {
@@ -122,7 +132,13 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			// в таблице свободных блоков в разделе blocks может быть больше блоков, чем numblocks
 			// numblocks - кол-во блоков с реальными данными
 			// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
-			while(t->blocks[real_numblocks]) real_numblocks++;
+			const uint32_t max_numblocks = sizeof(t->blocks) / sizeof(t->blocks[0]);
+			while(real_numblocks < max_numblocks && t->blocks[real_numblocks]) real_numblocks++;
+			if(numblocks > real_numblocks)
+			{
+				delete t;
+				bad_length(blockNum);
+			}
 			if(real_numblocks > 0)
 			{
 				blocks.clear();
@@ -140,6 +156,11 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 			} else {
 				numblocks = 0;
 			}
+			if(len > base->get_file_length() || numblocks > sizeof(t->blocks) / sizeof(t->blocks[0]))
+			{
+				delete t;
+				bad_length(blockNum);
+			}
 
 			if(numblocks > 0) {
 				blocks.clear();
@@ -178,6 +199,11 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 				.add_detail("Блок", to_hex_string(blockNum))
 				.add_detail("Длина файла", len);
 		}
+		if(len > base->get_file_length())
+		{
+			delete[] b;
+			bad_length(blockNum);
+		}
 		version.version_1 = t->version.version_1;
 		version.version_2 = t->version.version_2;
 		version.version_3 = t->version.version_3;
@@ -199,6 +225,11 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		else {
 			numblocks = 0;
 		}
+		if(numblocks > base->get_pagesize() / 4 - 6)
+		{
+			delete[] b;
+			bad_length(blockNum);
+		}
 
 		if(numblocks > 0) {
 			blocks.clear();
@@ -243,6 +274,11 @@ void V8Object::init(T_1CD* _base, int32_t blockNum)
 		// numblocks - кол-во блоков с реальными данными
 		// оставшиеся real_numblocks - numblocks блоки принадлежат объекту, но не содержат данных
 		while(real_numblocks < base->get_pagesize() / 4 - 3 && t->blocks[real_numblocks]) real_numblocks++;
+		if(numblocks > real_numblocks)
+		{
+			delete[] b;
+			bad_length(blockNum);
+		}
 		if(real_numblocks > 0) {
 			blocks.clear();
 			blocks.resize(real_numblocks);
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index a93b0ef..ba2bd99 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -158,6 +158,7 @@ private:
 
 	void init();
 	void init(T_1CD* _base, int32_t blockNum);
+	void bad_length(int32_t blockNum);
 };
 
 #endif
-- 
2.43.0


From 4319096886ba8a51e313ab9e441c64e352fa16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 092/122] fix: an object whose pages cannot be read completely
 is not kept in memory

---
 src/tool1cd/V8Object.cpp | 32 +++++++++++++++++++++++++++-----
 src/tool1cd/V8Object.h   |  1 +
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index e394b90..71e949f 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -342,6 +342,25 @@ V8Object::~V8Object()
 
 //---------------------------------------------------------------------------
 char* V8Object::get_data()
+{
+	lastdataget = GetTickCount();
+	if(!len) return nullptr;
+	if(data) return data;
+
+	try
+	{
+		return read_data();
+	}
+	catch(...)
+	{
+		delete[] data; // частично прочитанные данные не должны оставаться в кеше
+		data = nullptr;
+		throw;
+	}
+}
+
+//---------------------------------------------------------------------------
+char* V8Object::read_data()
 {
 	char* tt;
 	objtab* b;
@@ -351,10 +370,6 @@ char* V8Object::get_data()
 	uint64_t ll;
 	uint32_t curlen = 0;
 
-	lastdataget = GetTickCount();
-	if(!len) return nullptr;
-	if(data) return data;
-
 	if(type == v8objtype::free80)
 	{
 		l = len * 4;
@@ -377,7 +392,8 @@ char* V8Object::get_data()
 		for(i = 0; i < numblocks; i++)
 		{
 			b = (objtab*)base->get_block(blocks[i]);
-			for(j = 0; j < b->numblocks; j++)
+			const int32_t count = std::min<int32_t>(b->numblocks, sizeof(b->blocks) / sizeof(b->blocks[0]));
+			for(j = 0; j < count; j++)
 			{
 				curlen = std::min(DEFAULT_PAGE_SIZE, l);
 				base->get_block(tt, b->blocks[j], curlen);
@@ -387,6 +403,12 @@ char* V8Object::get_data()
 			}
 			if(!l) break;
 		}
+		if(l)
+		{
+			throw DetailedException("Таблица размещения объекта содержит не все его блоки")
+				.add_detail("Номер блока объекта", to_hex_string(block))
+				.add_detail("Длина объекта", len);
+		}
 	}
 	else if(type == v8objtype::data838)
 	{
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index ba2bd99..9d1cf87 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -159,6 +159,7 @@ private:
 	void init();
 	void init(T_1CD* _base, int32_t blockNum);
 	void bad_length(int32_t blockNum);
+	char* read_data();
 };
 
 #endif
-- 
2.43.0


From 080124b67be4192ce44fb0695a7e8bdce03af9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 093/122] fix: the root object of a database is checked before
 it is used

---
 src/tool1cd/Class_1CD.cpp | 47 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 63c0a7f..221fb9f 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -238,6 +238,25 @@ T_1CD::T_1CD(const boost::filesystem::path &_filename, MessageRegistrator *mess,
 	open(_filename, _monopoly);
 }
 
+//---------------------------------------------------------------------------
+// проверка того, что корневой объект содержит язык, количество таблиц и номера всех таблиц
+static void check_root(uint64_t root_len, uint64_t lang_len, const void *root)
+{
+	int32_t count = 0;
+	bool good = root && root_len >= lang_len + sizeof(count);
+	if(good)
+	{
+		memcpy(&count, (const char*)root + lang_len, sizeof(count));
+		good = count >= 0 && (uint64_t)count <= (root_len - lang_len - sizeof(count)) / sizeof(uint32_t);
+	}
+	if(!good)
+	{
+		throw DetailedException("Корневой объект базы поврежден")
+			.add_detail("Длина корневого объекта", root_len)
+			.add_detail("Количество таблиц", count);
+	}
+}
+
 //---------------------------------------------------------------------------
 void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 {
@@ -349,39 +368,37 @@ void T_1CD::open(const boost::filesystem::path &_filename, bool _monopoly)
 	if(version == db_ver::ver8_0_3_0 || version == db_ver::ver8_0_5_0)
 	{
 		root80 = (root_80*)root_object->get_data();
+		check_root(root_object->get_len(), sizeof(root80->lang), root80);
 
-		locale = new char[strlen(root80->lang) + 1];
-
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root80->lang) + 1, root80->lang);
-#else
-		strcpy(locale, root80->lang);
-#endif
+		string lang(root80->lang, strnlen(root80->lang, sizeof(root80->lang)));
+		locale = new char[lang.size() + 1];
+		memcpy(locale, lang.c_str(), lang.size() + 1);
 
 		num_tables = root80->numblocks;
 		table_blocks = &(root80->blocks[0]);
 	}
 	else
 	{
+		uint64_t root_len;
 		if(version >= db_ver::ver8_3_8_0)
 		{
 			tstr = new TMemoryStream;
 			root_object->readBlob(tstr, 1);
-			b = new char[tstr->GetSize()];
-			memcpy(b, tstr->GetMemory(), tstr->GetSize());
+			root_len = tstr->GetSize();
+			b = new char[root_len];
+			memcpy(b, tstr->GetMemory(), root_len);
 			root81 = (root_81*)b;
 		}
 		else
 		{
+			root_len = root_object->get_len();
 			root81 = (root_81*)root_object->get_data();
 		}
+		check_root(root_len, sizeof(root81->lang), root81);
 
-		locale = new char[strlen(root81->lang) + 1];
-#if defined (_MSC_VER)
-		strcpy_s(locale, strlen(root81->lang) + 1, root81->lang);
-#else
-		strcpy(locale, root81->lang);
-#endif
+		string lang(root81->lang, strnlen(root81->lang, sizeof(root81->lang)));
+		locale = new char[lang.size() + 1];
+		memcpy(locale, lang.c_str(), lang.size() + 1);
 
 		num_tables = root81->numblocks;
 		table_blocks = &(root81->blocks[0]);
-- 
2.43.0


From c32eee41f8f483d41a579f51a910cba553baec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 094/122] fix: pages of a damaged index are not read beyond
 their end

---
 src/tool1cd/Index.cpp | 72 +++++++++++++++++++++++++++++--------------
 src/tool1cd/Index.h   |  4 ++-
 2 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index bb3e93c..4b1e4af 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -20,6 +20,7 @@
 */
 
 #include "Index.h"
+#include <algorithm>
 #include <limits>
 #include "TableRecord.h"
 #include "DetailedException.h"
@@ -28,6 +29,12 @@ using namespace std;
 
 extern Registrator msreg_g;
 
+// длина записи индекса из заголовка индекса
+static uint32_t get_stored_length(const char *header)
+{
+	return std::max<int16_t>(*(const int16_t*)(header + 4), 0);
+}
+
 static const uint32_t LAST_PAGE = std::numeric_limits<uint32_t>::max();
 
 //---------------------------------------------------------------------------
@@ -82,6 +89,14 @@ uint32_t Index::get_numrec(uint32_t num_record) const
 	return recordsindex[num_record];
 }
 
+//---------------------------------------------------------------------------
+void Index::damaged() const
+{
+	throw DetailedException("Индекс поврежден")
+		.add_detail("Таблица", tbase->get_name())
+		.add_detail("Индекс", name);
+}
+
 //---------------------------------------------------------------------------
 void Index::create_recordsindex() const
 {
@@ -95,14 +110,18 @@ void Index::create_recordsindex() const
 
 	msreg_g.Status("Чтение индекса ");
 
-	buf = new char[pagesize];
+	std::vector<char> page(pagesize);
+	buf = page.data();
 
 	file_index = tbase->get_file_index();
+	if(!file_index) damaged();
+	const uint64_t max_pages = file_index->get_len() / pagesize;
+	uint64_t num_pages = 0;
 	file_index->get_data(buf, start, 8);
 
 	rootblock = *(uint32_t*)buf;
 	if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-	length = *(int16_t*)(buf + 4);
+	length = get_stored_length(buf);
 
 	curblock = rootblock;
 
@@ -114,6 +133,7 @@ void Index::create_recordsindex() const
 		bool is_leaf = buf[0] & 0x2;
 		while(!is_leaf)
 		{
+			if(++num_pages > max_pages || (uint64_t)length + 20 > pagesize) damaged();
 			curblock = *(uint32_t*)(buf + 16 + length);
 			curblock = 	reverse_byte_order(curblock);
 			if(version >= db_ver::ver8_3_8_0) curblock *= pagesize;
@@ -130,6 +150,8 @@ void Index::create_recordsindex() const
 			mask = *(uint32_t*)(buf + 14);
 			int32_t rlen = *(int16_t*)(buf + 28);
 			char *rbuf = buf + 30;
+			if(++num_pages > 2 * max_pages || curlen < 0 || rlen < 0 || (int64_t)curlen * rlen > pagesize - 30
+				|| curindex + curlen > recordsindex.size()) damaged();
 			for (int32_t i = 0; i < curlen; i++)
 			{
 				uint32_t numrec = 0;
@@ -148,14 +170,15 @@ void Index::create_recordsindex() const
 	}
 
 	recordsindex_complete = true;
-	delete[] buf;
 	tbase->set_log_numrecords(recordsindex.size());
 	msreg_g.Status("");
 }
 
 //---------------------------------------------------------------------------
-void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level, uint64_t curblock)
+void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level, uint64_t curblock, std::set<uint64_t> &dumped)
 {
+	if(!dumped.insert(curblock).second) damaged();
+
 	char* buf;
 	char* rbuf;
 	uint32_t curlen;
@@ -165,7 +188,8 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 	LeafPageHeader* lph;
 	BranchPageHeader* bph;
 
-	buf = new char[pagesize];
+	std::vector<char> page(pagesize);
+	buf = page.data();
 	lph = (LeafPageHeader*)buf;
 	bph = (BranchPageHeader*)buf;
 	file_index->get_data(buf, curblock, pagesize);
@@ -175,8 +199,8 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 		bool is_leaf = bph->flags & indexpage_is_leaf;
 		if(is_leaf)
 		{
-			curindex = new char[length]; //
-			memset(curindex, 0, length);
+			std::vector<char> current(length, 0);
+			curindex = current.data();
 
 			unsigned numrecmask = lph->numrecmask;
 			unsigned leftmask = lph->leftmask;
@@ -221,6 +245,7 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 				unsigned right =  indrec & rightmask;
 				rbuf += recbytes;
 				unsigned j = length - left - right;
+				if(left > length || right > length - left || rbuf > buf + pagesize || ibuf - rbuf < (int64_t)j) damaged();
 				ibuf -= j;
 				memcpy(curindex + left, ibuf, j);
 				if(right > previous_right) memset(curindex + length - right, 0, right - previous_right);
@@ -250,11 +275,11 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 				s += "\r\n";
 				f->Write(s.c_str(), s.size());
 			}
-			delete[] curindex;
-
 		}
 		else
 		{
+			if((uint64_t)curlen * ((uint64_t)length + 8) > pagesize - 12) damaged();
+
 			string s = "*";
 			s += to_string(level);
 			s += " branch, curblock ";
@@ -275,7 +300,7 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 				if(version >= db_ver::ver8_3_8_0) blockx *= pagesize;
 				rbuf += 4;
 
-				dump_recursive(file_index, f, level + 1, blockx);
+				dump_recursive(file_index, f, level + 1, blockx, dumped);
 
 				s = "  +";
 				s += to_string(level);
@@ -305,8 +330,6 @@ void Index::dump_recursive(V8Object* file_index, TFileStream* f, int32_t level,
 
 		}
 	}
-
-	delete[] buf;
 }
 
 //---------------------------------------------------------------------------
@@ -320,7 +343,7 @@ uint32_t Index::get_rootblock() const
 		tbase->get_file_index()->get_data(buf, start, 8);
 		rootblock = *(uint32_t*)buf;
 		if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-		length = *(int16_t*)(buf + 4);
+		length = get_stored_length(buf);
 	}
 	return rootblock;
 }
@@ -336,7 +359,7 @@ uint32_t Index::get_length() const
 		tbase->get_file_index()->get_data(buf, start, 8);
 		rootblock = *(uint32_t*)buf;
 		if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-		length = *(int16_t*)(buf + 4);
+		length = get_stored_length(buf);
 	}
 	return length;
 }
@@ -354,33 +377,31 @@ void Index::set_start_offset(const uint64_t value)
 //---------------------------------------------------------------------------
 void Index::dump(const string &_filename)
 {
-	TFileStream* f;
 	V8Object* file_index;
 
-	f = new TFileStream(_filename, fmCreate);
+	TFileStream f(_filename, fmCreate);
 
 	if(!start)
 	{
-		delete f;
 		return;
 	}
 
 	file_index = tbase->get_file_index();
+	if(!file_index) damaged();
 	if(rootblock == 0)
 	{
 		char buf[8];
 		file_index->get_data(buf, start, 8);
 		rootblock = *(uint32_t*)buf;
 		if(version >= db_ver::ver8_3_8_0) rootblock *= pagesize;
-		length = *(int16_t*)(buf + 4);
+		length = get_stored_length(buf);
 	}
 
 	string index_info = string("Index length ").append(to_string(length)).append("\r\n");
-	f->WriteString(index_info);
-
-	dump_recursive(file_index, f, 0, rootblock);
+	f.WriteString(index_info);
 
-	delete f;
+	std::set<uint64_t> dumped;
+	dump_recursive(file_index, &f, 0, rootblock, dumped);
 }
 
 //---------------------------------------------------------------------------
@@ -439,7 +460,7 @@ char* Index::unpack_leafpage(char* page, uint32_t& number_indexes)
 	unsigned recbytes = header->recbytes;
 
 	step = length + 4;
-	outbuf = new char[number_indexes * step];
+	outbuf = new char[(size_t)number_indexes * step];
 
 	rbuf = page + 30;
 	ibuf = page + pagesize;
@@ -456,6 +477,11 @@ char* Index::unpack_leafpage(char* page, uint32_t& number_indexes)
 		unsigned right = indrec & rightmask;
 		rbuf += recbytes;
 		j = length - left - right;
+		if(left > length || right > length - left || (left && !i) || rbuf > page + pagesize || ibuf - rbuf < (int64_t)j)
+		{
+			delete[] outbuf;
+			damaged();
+		}
 		ibuf -= j;
 
 		*(uint32_t*)obuf = numrec;
diff --git a/src/tool1cd/Index.h b/src/tool1cd/Index.h
index 87f244e..122cbed 100644
--- a/src/tool1cd/Index.h
+++ b/src/tool1cd/Index.h
@@ -22,6 +22,7 @@
 #ifndef SRC_CTOOL1CD_INDEX_H_
 #define SRC_CTOOL1CD_INDEX_H_
 
+#include <set>
 #include <vector>
 
 #include "Common.h"
@@ -154,7 +155,8 @@ private:
 	mutable bool recordsindex_complete; // признак заполнености recordsindex
 	void create_recordsindex() const;
 
-	void dump_recursive(V8Object* file_index, TFileStream* f, int32_t level, uint64_t curblock);
+	void damaged() const; // исключение о повреждении индекса
+	void dump_recursive(V8Object* file_index, TFileStream* f, int32_t level, uint64_t curblock, std::set<uint64_t> &dumped);
 	void delete_index_record(const char* index_buf, const uint32_t phys_numrec); // удаление одного индекса из файла index
 	void delete_index_record(const char* index_buf, const uint32_t phys_numrec, uint64_t block, bool& is_last_record, bool& page_is_empty, char* new_last_index_buf, uint32_t& new_last_phys_num); // рекурсивное удаление одного индекса из блока файла index
 	void write_index_record(const uint32_t phys_numrecord, const char* index_buf); // запись индекса
-- 
2.43.0


From dff0c50cca232918f2ba10af82e18876bb803f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 095/122] fix: a chain of blocks that runs in a circle is an
 error

---
 src/tool1cd/V8Object.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 71e949f..ba612aa 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1452,6 +1452,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 	char* _curb;
 	uint32_t _numblock;
 	uint32_t startlen;
+	uint32_t _chain = 0; // количество пройденных блоков
 
 	if(rewrite) _str->SetSize(0);
 	startlen = _str->GetPosition();
@@ -1470,11 +1471,12 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 			.add_detail("Длина файла", to_hex_string(len));
 	}
 
-	_curb = new char[0x100];
+	std::vector<char> _block(0x100);
+	_curb = _block.data();
 	_curblock = _startblock;
 	while(_curblock)
 	{
-		if(_curblock >= _numblock)
+		if(_curblock >= _numblock || ++_chain > _numblock)
 		{
 			throw DetailedException("Попытка чтения блока файла Blob за пределами файла")
 				.add_detail("Номер страницы файла", to_hex_string(block))
@@ -1495,7 +1497,6 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 
 		if(_str->GetSize() - startlen > _length) break; // аварийный выход из возможного ошибочного зацикливания
 	}
-	delete[] _curb;
 
 	if(_length != UINT_MAX) if(_str->GetSize() - startlen != _length)
 	{
-- 
2.43.0


From 47a036ae47abe686ae78aa1ca0a48b66952380db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 096/122] fix: pages of a damaged container are checked before
 they are followed

---
 src/tool1cd/cfapi/V8Catalog.cpp | 48 ++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 76e2e82..707cee2 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -22,6 +22,7 @@
 #include <algorithm>
 
 #include "V8Catalog.h"
+#include "../DetailedException.h"
 #include "../UZLib.h"
 #include "../Common.h"
 #include "../SystemClasses/String.hpp"
@@ -29,14 +30,29 @@
 using namespace std;
 using namespace System;
 
+//---------------------------------------------------------------------------
+// читает заголовок страницы
+static void read_block_header(TStream* stream_from, int start, stBlockHeader &block_header)
+{
+	stream_from->Seek(start, soFromBeginning);
+	if (stream_from->Read(&block_header, stBlockHeader::size()) != stBlockHeader::size()
+			|| block_header.get_data_size() < 0
+			|| block_header.get_page_size() < 0) {
+		throw DetailedException("Ошибка заголовка страницы контейнера")
+			.add_detail("Адрес страницы", start);
+	}
+}
+
 //---------------------------------------------------------------------------
 // читает блок из потока каталога stream_from, собирая его по страницам
 TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullptr)
 {
 	stBlockHeader block_header;
+	unique_ptr<TStream> new_stream; // удаляется, если чтение не удалось
 
 	if(!stream_to) {
-		stream_to = new TMemoryStream;
+		new_stream.reset(new TMemoryStream);
+		stream_to = new_stream.get();
 	}
 
 	stream_to->Seek(0, soFromBeginning);
@@ -45,39 +61,51 @@ TStream* read_block(TStream* stream_from, int start, TStream* stream_to = nullpt
 	if( start < 0
 			|| start == LAST_BLOCK
 			|| start > stream_from->GetSize() ) {
+		new_stream.release();
 		return stream_to;
 	}
 
-	stream_from->Seek(start, soFromBeginning);
-	stream_from->Read(&block_header, stBlockHeader::size());
+	read_block_header(stream_from, start, block_header);
 
 	int32_t len = block_header.get_data_size();
 
 	if(len == 0) {
+		new_stream.release();
 		return stream_to;
 	}
 
+	// все страницы цепочки должны помещаться в потоке
+	int64_t bytes_left = stream_from->GetSize() - stBlockHeader::size();
+
 	int32_t curlen = block_header.get_page_size();
 	start = block_header.get_next_page_addr();
 
-	int32_t readlen = std::min(len, curlen);
+	int32_t readlen = std::min<int64_t>(std::min(len, curlen), stream_from->GetSize() - stream_from->GetPosition());
 	if(readlen) stream_to->CopyFrom(stream_from, readlen);
 
 	int32_t pos = readlen;
+	bytes_left -= readlen;
 
 	while(start != LAST_BLOCK) {
-		stream_from->Seek(start, soFromBeginning);
-		stream_from->Read(&block_header, block_header.size());
+		bytes_left -= stBlockHeader::size();
+		if (bytes_left < 0) {
+			throw DetailedException("Цепочка страниц контейнера замкнута")
+				.add_detail("Адрес страницы", start);
+		}
+
+		read_block_header(stream_from, start, block_header);
 
 		curlen = block_header.get_page_size();
 
 		start  = block_header.get_next_page_addr();
 
-		readlen = std::min(len - pos, curlen);
+		readlen = std::min<int64_t>(std::min(len - pos, curlen), stream_from->GetSize() - stream_from->GetPosition());
 		if(readlen) stream_to->CopyFrom(stream_from, readlen);
 		pos += readlen;
+		bytes_left -= readlen;
 	}
 
+	new_stream.release();
 	return stream_to;
 
 }
@@ -334,6 +362,10 @@ void V8Catalog::initialize()
 				read_block(data, elem_addr.header_addr, file_data.get());
 				file_data->Seek(0, soFromBeginning);
 				auto header_size = file_data->GetSize();
+				if(header_size < 20) {
+					throw DetailedException("Ошибка заголовка элемента контейнера")
+						.add_detail("Адрес заголовка", elem_addr.header_addr);
+				}
 				_temp_buf = new char[header_size];
 				file_data->Read(_temp_buf, header_size);
 				// TODO: константы 20, 8
@@ -367,6 +399,8 @@ void V8Catalog::initialize()
 		iscatalog = false;
 		iscatalogdefined = true;
 
+		files.clear();
+		_prev = nullptr;
 		first = nullptr;
 		last = nullptr;
 		zipped = false;
-- 
2.43.0


From 8c04d6ad106dce94f623507b1d87976dc07a810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 097/122] fix: damaged field descriptions and part numbers are
 errors

---
 src/tool1cd/FieldType.cpp   | 11 ++++++++++-
 src/tool1cd/Table.cpp       |  4 ++--
 src/tool1cd/Table.h         |  4 ++--
 src/tool1cd/TableFiles.cpp  | 14 ++++++++++++++
 src/tool1cd/TableRecord.cpp | 10 ++++++++++
 src/tool1cd/TableRecord.h   |  4 ++++
 6 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/FieldType.cpp b/src/tool1cd/FieldType.cpp
index 90ea691..9e130a7 100644
--- a/src/tool1cd/FieldType.cpp
+++ b/src/tool1cd/FieldType.cpp
@@ -89,6 +89,8 @@ string from_varbinary(const uint8_t *fr, int32_t length)
 
 }
 
+static const int32_t MAX_FIELD_LENGTH = 0xffff; // наибольшая длина поля в описании таблицы
+
 class CommonFieldType : public FieldType
 {
 public:
@@ -491,7 +493,8 @@ uint32_t NumericFieldType::get_sort_key(const char* rec, unsigned char* SortKey,
 
 	unsigned char* fr = (unsigned char *)rec;
 
-	char nbuf[64];
+	vector<char> number(len); // копия значения поля
+	char *nbuf = number.data();
 
 	if (!maxlen) {
 		throw SerializationException("Ошибка получения ключа сортировки поля. Нулевая длина буфера.")
@@ -904,6 +907,12 @@ field_type_declaration field_type_declaration::parse_tree(Tree *field_tree)
 	}
 	type_declaration.precision = stoi(field_tree->get_value());
 
+	if (type_declaration.length < 0 || type_declaration.length > MAX_FIELD_LENGTH || type_declaration.precision < 0) {
+		throw FieldStreamParseException("Недопустимая длина или точность поля таблицы.")
+				.add_detail("Длина", type_declaration.length)
+				.add_detail("Точность", type_declaration.precision);
+	}
+
 	field_tree = field_tree->get_next();
 	if(field_tree->get_type() != node_type::nd_string) {
 		throw FieldStreamParseException("Ошибка получения регистрочувствительности поля таблицы. Узел не является строкой.");
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 3c44b5e..bee4924 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -2447,7 +2447,7 @@ Field* Table::get_field(const std::string &fieldname) const
 	throw error;
 }
 
-Field* Table::find_field(const std::string &fieldname) const throw()
+Field* Table::find_field(const std::string &fieldname) const
 {
 	for (int32_t j = 0; j < num_fields; j++) {
 		Field* fld = fields[j];
@@ -2472,7 +2472,7 @@ Index* Table::get_index(const std::string &indexname) const
 	throw error;
 }
 
-Index* Table::find_index(const std::string &indexname) const throw()
+Index* Table::find_index(const std::string &indexname) const
 {
 	for (int32_t j = 0; j < num_indexes; j++) {
 		Index* ind = indexes[j];
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index 3d96612..a8d26d4 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -181,9 +181,9 @@ public:
 	char* get_record_template_test();
 
 	Field* get_field(const std::string &fieldname) const;
-	Field* find_field(const std::string &fieldname) const throw();
+	Field* find_field(const std::string &fieldname) const;
 	Index* get_index(const std::string &indexname) const;
-	Index* find_index(const std::string &indexname) const throw();
+	Index* find_index(const std::string &indexname) const;
 
 	V8Object* get_descriptor_table() const;
 	void set_descriptor_table(V8Object *value);
diff --git a/src/tool1cd/TableFiles.cpp b/src/tool1cd/TableFiles.cpp
index 2bf5d5f..5b179a7 100644
--- a/src/tool1cd/TableFiles.cpp
+++ b/src/tool1cd/TableFiles.cpp
@@ -103,6 +103,12 @@ TableFiles::TableFiles(Table* t)
 
 		if(partno) tr.partno = ToIntDef(record->get_string(partno), 0);
 		else tr.partno = 0;
+		if (tr.partno < 0 || (uint32_t)tr.partno >= table->get_phys_numrecords()) {
+			throw DetailedException("Ошибка номера части файла")
+				.add_detail("Таблица", table->get_name())
+				.add_detail("Файл", tr.name)
+				.add_detail("Номер части", tr.partno);
+		}
 		time1CD_to_FileTime(&tr.ft_create, record->get_data(fld_create));
 		time1CD_to_FileTime(&tr.ft_modify, record->get_data(fld_modify));
 
@@ -167,6 +173,14 @@ bool TableFiles::test_table()
 			.add_detail("Поле", table->get_field(0)->get_name());
 	}
 
+	for (int i = 1; i <= 2; i++) {
+		if (table->get_field(i)->get_type() != type_fields::tf_datetime) {
+			throw DetailedException("Ошибка проверки таблицы контейнера файлов. Поле даты не является датой")
+				.add_detail("Таблица", table->get_name())
+				.add_detail("Поле", table->get_field(i)->get_name());
+		}
+	}
+
 	if (CompareIC(table->get_field(1)->get_name(), "CREATION"))
 	{
 		throw DetailedException("Ошибка проверки таблицы контейнера файлов. Второе поле таблицы не CREATION")
diff --git a/src/tool1cd/TableRecord.cpp b/src/tool1cd/TableRecord.cpp
index 839e42c..d7dd211 100644
--- a/src/tool1cd/TableRecord.cpp
+++ b/src/tool1cd/TableRecord.cpp
@@ -199,6 +199,16 @@ const Field *TableRecord::get_field(const std::string &field_name) const
 	return table->get_field(field_name);
 }
 
+void TableRecord::check_value_size(const Field *field, size_t size) const
+{
+	if (field->get_type_manager()->get_size() < size) {
+		throw DetailedException("Длина поля меньше длины запрошенного значения")
+				.add_detail("Поле", field->get_name())
+				.add_detail("Таблица", table->get_name())
+				.add_detail("Длина поля", field->get_type_manager()->get_size());
+	}
+}
+
 void RecordConverters::convert(const char *data, BinaryGuid &result)
 {
 	result = BinaryGuid(data);
diff --git a/src/tool1cd/TableRecord.h b/src/tool1cd/TableRecord.h
index 43815a0..95d1500 100644
--- a/src/tool1cd/TableRecord.h
+++ b/src/tool1cd/TableRecord.h
@@ -83,6 +83,7 @@ public:
 			return default_value;
 		}
 
+		check_value_size(f, sizeof(T));
 		T result;
 		RecordConverters::convert(get_data(f), result);
 		return result;
@@ -127,6 +128,9 @@ private:
 	const Field *get_field(const std::string &field_name) const;
 	char *__get_data(const Field *field);
 
+	// проверяет, что значение поля не короче указанного размера
+	void check_value_size(const Field *field, size_t size) const;
+
 	char *data;
 	const Table *table;
 	int data_size;
-- 
2.43.0


From cef246c39d31f17308b35864bb21bd4fdc0c0455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 098/122] fix: places beyond four gigabytes in tables and long
 values are computed in 64 bits

---
 src/tool1cd/Table.cpp    | 18 +++++++++---------
 src/tool1cd/V8Object.cpp |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index bee4924..11a4d64 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -444,7 +444,7 @@ void Table::init(int32_t block_descr)
 
 	if(file_data)
 	{
-		if(phys_numrecords * recordlen != file_data->get_len())
+		if(file_data->get_len() % recordlen)
 		{
 			throw DetailedException("Длина таблицы не кратна длине записи.")
 				.add_detail("Блок", to_hex_string(block_descr))
@@ -640,7 +640,7 @@ uint32_t Table::get_added_numrecords() const
 //---------------------------------------------------------------------------
 void Table::get_record(uint32_t phys_numrecord, char *buf)
 {
-	file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
@@ -650,7 +650,7 @@ TableRecord * Table::get_record(uint32_t phys_numrecord) const
 	tr_syn->BeginWrite();
 	#endif
 	char *buf = new char[recordlen];
-	char* b = file_data->get_data(buf, phys_numrecord * recordlen, recordlen);
+	char* b = file_data->get_data(buf, (uint64_t)phys_numrecord * recordlen, recordlen);
 	#ifndef getcfname
 	tr_syn->EndWrite();
 	#endif
@@ -733,7 +733,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 	uint32_t _curblock;
 	char* _curb;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t readed = 0;
 	uint32_t _chain = 0; // количество пройденных блоков
 	bool _overflow = false;
@@ -767,7 +767,7 @@ TStream* Table::readBlob(TStream* _str, uint32_t _startblock, uint32_t _length,
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -814,7 +814,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 	char* _curb;
 	char* _buf;
 	uint16_t _curlen;
-	uint32_t _filelen, _numblock;
+	uint64_t _filelen, _numblock;
 	uint32_t readed;
 	uint32_t _chain = 0; // количество пройденных блоков
 	bool _overflow = false;
@@ -849,7 +849,7 @@ uint32_t Table::readBlob(void* buf, uint32_t _startblock, uint32_t _length) cons
 					.add_detail("Всего блоков", _numblock)
 					.add_detail("Читаемый блок", _curblock);
 			}
-			file_blob->get_data(_curb, _curblock << 8, BLOB_RECORD_LEN);
+			file_blob->get_data(_curb, (uint64_t)_curblock << 8, BLOB_RECORD_LEN);
 			_curblock = *(uint32_t*)_curb;
 			_curlen = *(uint16_t*)(_curb + 4);
 			if(_curlen > BLOB_RECORD_DATA_LEN)
@@ -1077,7 +1077,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 //---------------------------------------------------------------------------
 uint64_t Table::get_file_offset(uint32_t phys_numrecord)
 {
-	uint32_t _offset = phys_numrecord * recordlen;
+	uint64_t _offset = (uint64_t)phys_numrecord * recordlen;
 	return file_data->get_fileoffset(_offset);
 }
 
@@ -1856,7 +1856,7 @@ void Table::write_data_record(uint32_t phys_numrecord, const TableRecord *rec)
 		file_data->set_data(b, 0, recordlen);
 		delete[] b;
 	}
-	file_data->set_data(rec, phys_numrecord * recordlen, recordlen);
+	file_data->set_data(rec, (uint64_t)phys_numrecord * recordlen, recordlen);
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index ba612aa..0e67b4f 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1450,7 +1450,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 {
 	uint32_t _curblock;
 	char* _curb;
-	uint32_t _numblock;
+	uint64_t _numblock;
 	uint32_t startlen;
 	uint32_t _chain = 0; // количество пройденных блоков
 
@@ -1483,7 +1483,7 @@ TStream* V8Object::readBlob(TStream* _str, uint32_t _startblock, uint32_t _lengt
 				.add_detail("Всего блоков", _numblock)
 				.add_detail("Читаемый блок", _curblock);
 		}
-		get_data(_curb, _curblock << 8, 0x100);
+		get_data(_curb, (uint64_t)_curblock << 8, 0x100);
 		_curblock = *(uint32_t*)_curb;
 		uint16_t _curlen = *(uint16_t*)(_curb + 4);
 		if(_curlen > 0xfa)
-- 
2.43.0


From d1a0c1755f028ee402b5128f245a8eafee5c202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 099/122] fix: record count and packed length in a depot pack
 are bounded by the file

---
 src/tool1cd/Packdata.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Packdata.cpp b/src/tool1cd/Packdata.cpp
index 1aea122..2dba6b4 100755
--- a/src/tool1cd/Packdata.cpp
+++ b/src/tool1cd/Packdata.cpp
@@ -32,8 +32,11 @@ Packdata::Packdata(boost::filesystem::path& file_path) {
 	try {
 		std::unique_ptr<TFileStream> in(new TFileStream(file_path, fmOpenRead | fmShareDenyNone));
 		in->Seek(8, soFromBeginning);
-		uint32_t count;
+		uint32_t count = 0;
 		in->Read(&count, sizeof(count));
+		if (count > (in->GetSize() - in->GetPosition()) / (int64_t)sizeof(record_data_hash)) {
+			throw DetailedException("Количество записей больше размера файла");
+		}
 		datahashes.resize(count);
 		in->Read(datahashes.data(), count * sizeof(record_data_hash));
 	}
@@ -63,6 +66,10 @@ TStream* Packdata::get_data(const char* datahash, bool &found) {
 			pack->Seek(record.offset, soBeginning);
 			int64_t packlen = 0;
 			pack->Read(&packlen, sizeof(packlen));
+			if (packlen > pack->GetSize() - pack->GetPosition()) {
+				throw DetailedException("Длина упакованного объекта больше размера файла")
+						.add_detail("Длина", packlen);
+			}
 			buffer = new TTempStream;
 			if (packlen > 0) {
 				buffer->CopyFrom(pack.get(), packlen);
-- 
2.43.0


From 230c4a911a26f5f57864e8a654d2735a32c9c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 100/122] fix: a missing node of a description tree is an
 error, not a null reference

---
 src/tool1cd/Parse_tree.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 5974366..88e1178 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -177,13 +177,14 @@ Tree* Tree::get_last()
 //---------------------------------------------------------------------------
 Tree& Tree::operator [](int _index)
 {
-	if(!this) return *this; //-V704
-
 	Tree* ret = first;
-	while(_index)
-	{
-		if(ret) ret = ret->next;
-		--_index;
+	for (int i = 0; ret && i < _index; ++i) {
+		ret = ret->next;
+	}
+	if (!ret) {
+		throw DetailedException("Отсутствует узел дерева")
+				.add_detail("Путь", path())
+				.add_detail("Номер узла", _index);
 	}
 	return *ret;
 }
-- 
2.43.0


From 4c22020a71cd52d68855645f89c0a39807803a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 101/122] fix: writing through a plain file in a container path
 is refused

---
 src/tool1cd/ConfigStorage.cpp   | 1 +
 src/tool1cd/cfapi/V8Catalog.cpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index b550828..26e0ad2 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -165,6 +165,7 @@ bool ConfigStorageCFFile::writefile(const std::string &path, TStream *str)
 	for (auto i = fname.find("\\"); i != string::npos; i = fname.find("\\"))
 	{
 		c = c->CreateCatalog(fname.substr(0, i));
+		if(!c) return false; // часть пути занята файлом
 		fname = fname.substr(i + 1, fname.size() - i - 1);
 	}
 	f = c->createFile(fname);
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index 707cee2..b5b39f5 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -813,7 +813,8 @@ V8Catalog* V8Catalog::CreateCatalog(const string &FileName, bool _selfzipped)
 	V8Catalog* ret;
 	Lock->Acquire();
 	V8File* f = createFile(FileName, _selfzipped);
-	if(f->get_file_length() > 0)
+	if(!f) ret = nullptr;
+	else if(f->get_file_length() > 0)
 	{
 		if(f->is_catalog()) ret = f->get_catalog();
 		else ret = nullptr;
-- 
2.43.0


From 9620052c47aa52eb8d9542aa0d3349dacabfdc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 102/122] fix: a damaged DynamicallyUpdated list is an error

---
 src/tool1cd/ConfigStorage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index 26e0ad2..fbb27da 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -1156,11 +1156,12 @@ std::vector<BinaryGuid> parse_dynamically_updated_tree(unique_ptr<Tree> tt)
 
 	int ndynup = ToIntDef(ct->get_value(), 0);
 	std::vector<BinaryGuid> dynup;
-	dynup.reserve(ndynup);
 	if (ndynup > 0) {
-		dynup.reserve(ndynup);
 		while (ndynup--) {
 			ct = ct->get_next();
+			if (!ct) {
+				throw DetailedException("Ошибка разбора файла DynamicallyUpdated");
+			}
 			dynup.emplace_back(BinaryGuid(ct->get_value()));
 		}
 	}
-- 
2.43.0


From 0a9a2c6f8863010fed596fcb7681a48e67df4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 103/122] fix: names stored in the data are used as file names
 without leaving the chosen directory

---
 src/ctool1cd/App.cpp                   |  6 +++---
 src/tool1cd/Common.cpp                 | 14 ++++++++++++++
 src/tool1cd/Common.h                   |  3 +++
 src/tool1cd/Table.cpp                  |  4 ++--
 src/tool1cd/cfapi/V8Catalog.cpp        | 12 ++++++++++--
 src/tool1cd/save_part_depot_config.cpp |  4 ++--
 6 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index 8a715e1..fd1be33 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -110,7 +110,7 @@ void App::export_all_to_xml(const ParsedCommand &pc)
 			tbl->fill_records_index();
 		}
 
-		boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+		boost::filesystem::path filetable = root_path / to_file_name(tbl->get_name() + ".xml");
 
 		tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 
@@ -175,7 +175,7 @@ void App::export_to_xml(const ParsedCommand &pc)
 		if (b) {
 			tbl->fill_records_index();
 
-			boost::filesystem::path filetable = root_path / (tbl->get_name() + ".xml");
+			boost::filesystem::path filetable = root_path / to_file_name(tbl->get_name() + ".xml");
 			tbl->export_to_xml(filetable.string(), ActionXMLSaveBLOBToFileChecked, ActionXMLUnpackBLOBChecked);
 			msreg_g.AddMessage("Выполнен экспорт таблицы в файл.", MessageState::Succesfull)
 				.with("Таблица", tbl->get_name())
@@ -381,7 +381,7 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 	}
 
 	for (auto& supplier_config : base1CD->supplier_configs()) {
-		string file_name = supplier_config->name() + " " + supplier_config->version() + CF_STR;
+		string file_name = to_file_name(supplier_config->name() + " " + supplier_config->version() + CF_STR);
 		boost::filesystem::path cfpath = param_path / file_name;
 		if ( supplier_config->save_to_file(cfpath) ) {
 			msreg_g.AddMessage("Сохранение конфигурации поставщика завершено.", MessageState::Succesfull)
diff --git a/src/tool1cd/Common.cpp b/src/tool1cd/Common.cpp
index 1bda119..f1fe629 100755
--- a/src/tool1cd/Common.cpp
+++ b/src/tool1cd/Common.cpp
@@ -170,6 +170,20 @@ unsigned char from_hex_digit(char digit)
 	return 0;
 }
 
+std::string to_file_name(const std::string &name)
+{
+	string result = name;
+	for (auto &c : result) {
+		if (c == '/' || c == '\\' || c == '\0') {
+			c = '_';
+		}
+	}
+	if (result.empty() || result == "." || result == "..") {
+		result += "_";
+	}
+	return result;
+}
+
 bool directory_exists(boost::filesystem::path& check_path, bool create_directory) {
 	if(!boost::filesystem::exists(check_path)) {
 		if(create_directory) {
diff --git a/src/tool1cd/Common.h b/src/tool1cd/Common.h
index 0002089..10a94bb 100755
--- a/src/tool1cd/Common.h
+++ b/src/tool1cd/Common.h
@@ -61,5 +61,8 @@ std::string to_hex_string( T num, bool prefix = true ) {
 
 bool directory_exists(boost::filesystem::path& check_path, bool create_directory = false);
 
+// Имя файла внутри каталога: без разделителей пути, не пустое, не . и не ..
+std::string to_file_name(const std::string &name);
+
 #endif
 
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 11a4d64..76725b2 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1131,7 +1131,7 @@ changed_rec_type Table::get_rec_type(uint32_t phys_numrecord, int32_t numfield)
 //---------------------------------------------------------------------------
 void Table::export_table(const boost::filesystem::path &path) const
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / to_file_name(name);
 	if(!directory_exists(dir, true)) {
 		return;
 	}
@@ -1204,7 +1204,7 @@ static _version& object_version(T_1CD *base, uint32_t block_number)
 //---------------------------------------------------------------------------
 void Table::import_table(const boost::filesystem::path &path)
 {
-	boost::filesystem::path dir = path / name;
+	boost::filesystem::path dir = path / to_file_name(name);
 
 	if(!directory_exists(dir)) {
 		return;
diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index b5b39f5..f6b725b 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 #include <array>
+#include <set>
 #include <algorithm>
 
 #include "V8Catalog.h"
@@ -836,14 +837,21 @@ void V8Catalog::SaveToDir(const boost::filesystem::path &dir) const
 		boost::filesystem::create_directories(dir);
 	}
 	Lock->Acquire();
+	std::set<string> used_names;
 	V8File* f = first;
 	while(f)
 	{
+		// файлы не должны попасть за пределы каталога или заменить друг друга
+		const string name = to_file_name(f->get_file_name());
+		string unique_name = name;
+		for (int k = 2; !used_names.insert(unique_name).second; k++) {
+			unique_name = name + "_" + to_string(k);
+		}
 		if(f->is_catalog()) {
-			f->get_catalog()->SaveToDir(dir / f->get_file_name());
+			f->get_catalog()->SaveToDir(dir / unique_name);
 		}
 		else {
-			f->save_to_file(dir / f->get_file_name());
+			f->save_to_file(dir / unique_name);
 		}
 		f->close();
 		f = f->get_next();
diff --git a/src/tool1cd/save_part_depot_config.cpp b/src/tool1cd/save_part_depot_config.cpp
index 670e96e..37c3cfc 100644
--- a/src/tool1cd/save_part_depot_config.cpp
+++ b/src/tool1cd/save_part_depot_config.cpp
@@ -443,10 +443,10 @@ bool T_1CD::save_part_depot_config(const string &_filename, int32_t ver_begin, i
 												cat = new V8Catalog(out, false, true);
 												iscatalog = cat->is_catalog();
 											}
-											if(iscatalog) cat->SaveToDir((cath / ext_name).string());
+											if(iscatalog) cat->SaveToDir((cath / to_file_name(ext_name)).string());
 											else
 											{
-												TFileStream f(cath / ext_name, fmCreate);
+												TFileStream f(cath / to_file_name(ext_name), fmCreate);
 												f.CopyFrom(out, 0);
 											}
 											delete cat;
-- 
2.43.0


From cff64aeaaba3b219bc193c5269820d0f88bac58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 104/122] fix: every process keeps its temporary files in a
 directory of its own

---
 src/tool1cd/TempStream.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tool1cd/TempStream.cpp b/src/tool1cd/TempStream.cpp
index d9bd472..7e436fe 100755
--- a/src/tool1cd/TempStream.cpp
+++ b/src/tool1cd/TempStream.cpp
@@ -33,10 +33,8 @@ TTempStreamStaticInit TempStreamStaticInit;
 
 static void DelayedInitTempPath()
 {
-	TTempStream::tempcat = boost::filesystem::temp_directory_path() / "t1cd";
-	if (boost::filesystem::exists(TTempStream::tempcat)) {
-		boost::filesystem::remove_all(TTempStream::tempcat);
-	}
+	// у каждого процесса свой каталог: общий каталог процессы удаляли бы друг у друга
+	TTempStream::tempcat = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("t1cd-%%%%-%%%%-%%%%-%%%%");
 	boost::filesystem::create_directory(TTempStream::tempcat);
 }
 
-- 
2.43.0


From 3d606b70a0757be2b55b5a9687a94f20ae7ccd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 105/122] fix: sizes of objects over 2 GB in the table size
 report

---
 src/ctool1cd/App.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index fd1be33..a8c74da 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -71,7 +71,7 @@ static string mask_to_regex(const string &mask)
 	return result;
 }
 
-static int object_size(/*const */V8Object *file)
+static uint64_t object_size(/*const */V8Object *file)
 {
 	if (file == nullptr) {
 		return 0;
-- 
2.43.0


From 260c62d9379339b973300f6887a97b23983ad1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 106/122] fix: index files of 4 GB and more

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 76725b2..b468569 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -144,7 +144,7 @@ void Table::init(int32_t block_descr)
 	Tree* f;
 	Tree* rt;
 	int32_t j;
-	uint32_t m;
+	uint64_t m;
 	uint64_t s;
 	int32_t blockfile[3];
 	uint32_t* buf;
-- 
2.43.0


From d1b2099fdc466dfa65ffea63a111517d659fd806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 107/122] fix: changes of a database that is closed are saved

---
 src/tool1cd/Class_1CD.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 221fb9f..20e4169 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -225,7 +225,19 @@ T_1CD::~T_1CD()
 	}
 	num_tables = 0;
 
-	// сначала закрываем кэшированные блоки (измененные блоки записывают себя в файл) ...
+	// сначала записываем измененные блоки в файл и закрываем кэшированные блоки ...
+	if(fs && !readonly)
+	{
+		try
+		{
+			memBlockManager.flush();
+		}
+		catch(...)
+		{
+			msreg_g.AddError("Ошибка записи измененных блоков базы при закрытии")
+				.with("Файл", filename.string());
+		}
+	}
 	memBlockManager.delete_memblocks();
 
 	delete[] locale;
-- 
2.43.0


From d988901f5695ebde171795565c9e9855413cc6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 108/122] fix: a failed table import leaves the database
 unchanged

---
 src/tool1cd/Table.cpp | 215 +++++++++++++++++-------------------------
 1 file changed, 87 insertions(+), 128 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index b468569..0feae99 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -19,6 +19,7 @@
     along with Tool1CD Library.  If not, see <http://www.gnu.org/licenses/>.
 */
 
+#include <memory>
 #include <set>
 #include <string>
 #include <boost/filesystem.hpp>
@@ -1201,6 +1202,25 @@ static _version& object_version(T_1CD *base, uint32_t block_number)
 	return reinterpret_cast<v8ob*>(page)->version;
 }
 
+//---------------------------------------------------------------------------
+// открывает файл импорта таблицы
+static std::unique_ptr<TFileStream> open_import_file(const std::string &table_name, const boost::filesystem::path &dir, const std::string &file_name)
+{
+	const boost::filesystem::path path = dir / file_name;
+	try
+	{
+		if (boost::filesystem::is_regular_file(path)) {
+			return std::unique_ptr<TFileStream>(new TFileStream(path, fmOpenRead));
+		}
+	}
+	catch(...)
+	{
+	}
+	throw DetailedException("Ошибка открытия файла импорта таблицы " + file_name)
+		.add_detail("Таблица", table_name)
+		.add_detail("Файл", path.string());
+}
+
 //---------------------------------------------------------------------------
 void Table::import_table(const boost::filesystem::path &path)
 {
@@ -1210,153 +1230,92 @@ void Table::import_table(const boost::filesystem::path &path)
 		return;
 	}
 
-	TFileStream* f;
-	bool fopen;
-
-	bool descr_changed = false;
-
-	try
-	{
-		f = new TFileStream(dir / "root", fmOpenRead);
-	}
-	catch(...)
-	{
-		throw DetailedException("Ошибка открытия файла импорта таблицы root")
+	export_import_table_root root;
+	if (open_import_file(name, dir, "root")->Read(&root, sizeof(root)) != sizeof(root)) {
+		throw DetailedException("Файл импорта таблицы root поврежден")
 			.add_detail("Таблица", name)
 			.add_detail("Файл", (dir / "root").string());
 	}
-	export_import_table_root root;
-	f->Read(&root, sizeof(export_import_table_root));
-	delete f;
 
+	// все файлы открываются до изменения базы, чтобы не оставить таблицу загруженной частично
+	std::unique_ptr<TFileStream> data_stream, blob_stream, index_stream;
 	if(root.has_data) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "data", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы data")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "data").string());
-		}
-		if(fopen)
-		{
-			if(!file_data){
-				file_data = new V8Object(base);
-				descr_changed = true;
-			}
-			file_data->set_data(f);
-			auto &version = object_version(base, file_data->get_block_number());
-			version.version_1 = root.data_version_1;
-			version.version_2 = root.data_version_2;
-			delete f;
-		}
+		data_stream = open_import_file(name, dir, "data");
 	}
-
 	if(root.has_blob) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "blob", fmOpenRead);
-			fopen = true;
-		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы blob")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "blob").string());
-		}
-		if(fopen)
-		{
-			if(!file_blob){
-				file_blob = new V8Object(base);
-				descr_changed = true;
-			}
-			file_blob->set_data(f);
-			auto &version = object_version(base, file_blob->get_block_number());
-			version.version_1 = root.blob_version_1;
-			version.version_2 = root.blob_version_2;
-			delete f;
-		}
+		blob_stream = open_import_file(name, dir, "blob");
 	}
-
 	if(root.has_index) {
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "index", fmOpenRead);
-			fopen = true;
+		index_stream = open_import_file(name, dir, "index");
+	}
+
+	bool descr_changed = (data_stream && !file_data) || (blob_stream && !file_blob) || (index_stream && !file_index);
+	string descr;
+	if (descr_changed)
+	{
+		if (!descr_table || !root.has_descr) {
+			throw DetailedException("Загружаемая часть таблицы отсутствует в базе, описание таблицы не может быть изменено")
+				.add_detail("Таблица", name);
 		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы index")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "index").string());
+		auto descr_stream = open_import_file(name, dir, "descr");
+		vector<uint8_t> buf(descr_stream->GetSize());
+		descr_stream->Read(buf.data(), buf.size());
+		descr = TEncoding::Unicode->toUtf8(buf);
+
+		auto pos_files = descr.find("{\"Files\",");
+		if (pos_files == string::npos) {
+			throw DetailedException("Ошибка поиска раздела Files в файле импорта таблицы descr")
+				.add_detail("Файл", (dir / "descr").string());
 		}
-		if(fopen)
-		{
-			if(!file_index){
-				file_index = new V8Object(base);
-				descr_changed = true;
-			}
-			file_index->set_data(f);
-			auto &version = object_version(base, file_index->get_block_number());
-			version.version_1 = root.index_version_1;
-			version.version_2 = root.index_version_2;
-			delete f;
+		descr.resize(pos_files);
+	}
+
+	if(data_stream) {
+		if(!file_data) {
+			file_data = new V8Object(base);
 		}
+		file_data->set_data(data_stream.get());
+		auto &version = object_version(base, file_data->get_block_number());
+		version.version_1 = root.data_version_1;
+		version.version_2 = root.data_version_2;
 	}
 
-	if (descr_changed && root.has_descr)
-	{
-		fopen = false;
-		try
-		{
-			f = new TFileStream(dir / "descr", fmOpenRead);
-			fopen = true;
+	if(blob_stream) {
+		if(!file_blob) {
+			file_blob = new V8Object(base);
 		}
-		catch(...)
-		{
-			throw DetailedException("Ошибка открытия файла импорта таблицы descr")
-					.add_detail("Таблица", name)
-					.add_detail("Файл", (dir / "descr").string());
+		file_blob->set_data(blob_stream.get());
+		auto &version = object_version(base, file_blob->get_block_number());
+		version.version_1 = root.blob_version_1;
+		version.version_2 = root.blob_version_2;
+	}
+
+	if(index_stream) {
+		if(!file_index) {
+			file_index = new V8Object(base);
 		}
-		if(fopen)
-		{
-			if(!descr_table) descr_table = new V8Object(base); // вообще, если descr_table == nullptr, то это огромная ошибка!
-			auto &version = object_version(base, descr_table->get_block_number());
-			version.version_1 = root.descr_version_1;
-			version.version_2 = root.descr_version_2;
-
-			auto buf_size = f->GetSize();
-			char *buf = new char[buf_size];
-			f->Read(buf, buf_size);
-			string str = TEncoding::Unicode->toUtf8(vector<uint8_t>(buf, buf + buf_size));
-			delete[] buf;
-			delete f;
+		file_index->set_data(index_stream.get());
+		auto &version = object_version(base, file_index->get_block_number());
+		version.version_1 = root.index_version_1;
+		version.version_2 = root.index_version_2;
+	}
 
-			auto pos_files = str.find("{\"Files\",");
-			if (pos_files == string::npos) {
-				throw DetailedException("Ошибка поиска раздела Files в файле импорта таблицы descr")
-					.add_detail("Файл", (dir / "descr").string());
-			}
-			str.resize(pos_files);
-			str += "{\"Files\",";
-			str += file_data ? to_string(file_data->get_block_number()) : string("0");
-			str += ",";
-			str += file_blob ? to_string(file_blob->get_block_number()) : string("0");
-			str += ",";
-			str += file_index ? to_string(file_index->get_block_number()) : string("0");
-			str += "}\n}";
-
-			auto data = TEncoding::Unicode->fromUtf8(str);
-			descr_table->set_data(data.data(), data.size());
+	if (descr_changed)
+	{
+		auto &version = object_version(base, descr_table->get_block_number());
+		version.version_1 = root.descr_version_1;
+		version.version_2 = root.descr_version_2;
 
-		}
+		descr += "{\"Files\",";
+		descr += file_data ? to_string(file_data->get_block_number()) : string("0");
+		descr += ",";
+		descr += file_blob ? to_string(file_blob->get_block_number()) : string("0");
+		descr += ",";
+		descr += file_index ? to_string(file_index->get_block_number()) : string("0");
+		descr += "}\n}";
 
+		auto data = TEncoding::Unicode->fromUtf8(descr);
+		descr_table->set_data(data.data(), data.size());
 	}
 
 	base->flush();
-- 
2.43.0


From 8a3b2263403d0da77bf77e87054d41032ad2bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 109/122] fix: errors of writing a container are reported
 instead of crashing

---
 src/tool1cd/cfapi/V8Catalog.cpp | 71 ++++++++++++++++++++++-----------
 src/tool1cd/cfapi/V8File.cpp    | 55 ++++++++++++++-----------
 2 files changed, 80 insertions(+), 46 deletions(-)

diff --git a/src/tool1cd/cfapi/V8Catalog.cpp b/src/tool1cd/cfapi/V8Catalog.cpp
index f6b725b..141530a 100644
--- a/src/tool1cd/cfapi/V8Catalog.cpp
+++ b/src/tool1cd/cfapi/V8Catalog.cpp
@@ -24,6 +24,7 @@
 
 #include "V8Catalog.h"
 #include "../DetailedException.h"
+#include "../MessageRegistration.h"
 #include "../UZLib.h"
 #include "../Common.h"
 #include "../SystemClasses/String.hpp"
@@ -31,6 +32,8 @@
 using namespace std;
 using namespace System;
 
+extern Registrator msreg_g;
+
 //---------------------------------------------------------------------------
 // читает заголовок страницы
 static void read_block_header(TStream* stream_from, int start, stBlockHeader &block_header)
@@ -713,6 +716,7 @@ V8Catalog::~V8Catalog()
 	stElemAddr elem_addr;
 	V8File* f;
 	TMemoryStream* fat = nullptr;
+	string write_error; // деструктор не может выбросить исключение, об ошибках записи сообщается в конце
 
 	Lock->Acquire();
 	_destructed = true;
@@ -720,7 +724,14 @@ V8Catalog::~V8Catalog()
 	f = first;
 	while(f)
 	{
-		f->close();
+		try
+		{
+			f->close();
+		}
+		catch(const std::exception &error)
+		{
+			write_error = error.what();
+		}
 		f = f->get_next();
 	}
 
@@ -742,8 +753,9 @@ V8Catalog::~V8Catalog()
 				}
 				write_block(fat, stFileHeader::size(), true);
 			}
-			catch(...)
+			catch(const std::exception &error)
 			{
+				write_error = error.what();
 			}
 			delete fat;
 		}
@@ -751,38 +763,51 @@ V8Catalog::~V8Catalog()
 
 	while(first) delete first;
 
-	if(data)
+	try
 	{
-		if(is_emptymodified)
+		if(data)
 		{
-			data->Seek(0, soFromBeginning);
-			data->WriteBuffer(&file_header.next_page_addr, sizeof(file_header.next_page_addr));
+			if(is_emptymodified)
+			{
+				data->Seek(0, soFromBeginning);
+				data->WriteBuffer(&file_header.next_page_addr, sizeof(file_header.next_page_addr));
+			}
+			if(is_modified)
+			{
+				file_header.storage_ver++;
+				data->Seek(8, soFromBeginning);
+				data->WriteBuffer(&file_header.storage_ver, sizeof(file_header.storage_ver));
+			}
 		}
-		if(is_modified)
+
+		if(file)
 		{
-			file_header.storage_ver++;
-			data->Seek(8, soFromBeginning);
-			data->WriteBuffer(&file_header.storage_ver, sizeof(file_header.storage_ver));
+			if(is_modified)
+			{
+				file->set_data_modified(true);
+			}
+			if(!file->get_destructed()) file->close();
 		}
-	}
-
-	if(file){
-		if(is_modified)
+		else if(is_cfu && data && cfu && is_modified)
 		{
-			file->set_data_modified(true);
+			data->Seek(0, soFromBeginning);
+			cfu->Seek(0, soFromBeginning);
+			ZDeflateStream(data, cfu);
 		}
-		if(!file->get_destructed()) file->close();
 	}
-	else
+	catch(const std::exception &error)
+	{
+		write_error = error.what();
+	}
+	if(!write_error.empty())
+	{
+		msreg_g.AddError("Ошибка записи контейнера. " + write_error);
+	}
+
+	if(!file)
 	{
 		if(is_cfu)
 		{
-			if(data && cfu && is_modified)
-			{
-				data->Seek(0, soFromBeginning);
-				cfu->Seek(0, soFromBeginning);
-				ZDeflateStream(data, cfu);
-			}
 			delete data;
 			data = nullptr;
 			if(cfu && !leave_data){
diff --git a/src/tool1cd/cfapi/V8File.cpp b/src/tool1cd/cfapi/V8File.cpp
index 5a0ee22..25faa67 100644
--- a/src/tool1cd/cfapi/V8File.cpp
+++ b/src/tool1cd/cfapi/V8File.cpp
@@ -526,36 +526,39 @@ void V8File::close(){
 	}
 	self = nullptr;
 
+	// если запись не удастся, файл все равно окажется закрытым
+	std::unique_ptr<TStream> closing_data(data);
+	const bool write_data = _datamodified;
+	const bool write_header = is_headermodified;
+	data = nullptr;
+	iscatalog = FileIsCatalog::unknown;
+	is_opened = false;
+	_datamodified = false;
+	is_headermodified = false;
+
 	if(!parent->data_empty()) {
-		if(_datamodified || is_headermodified)
+		if(write_data || write_header)
 		{
 			parent->Acquire();
-			if(_datamodified)
+			if(write_data)
 			{
-				set_start_data(parent->write_datablock(data, start_data, _selfzipped));
+				set_start_data(parent->write_datablock(closing_data.get(), start_data, _selfzipped));
 			}
-			if(is_headermodified)
+			if(write_header)
 			{
-				TMemoryStream* hs = new TMemoryStream();
-				_time_create.write_to_stream(hs);
-				_time_modify.write_to_stream(hs);
-				hs->Write(&zero4b, 4);
+				TMemoryStream hs;
+				_time_create.write_to_stream(&hs);
+				_time_modify.write_to_stream(&hs);
+				hs.Write(&zero4b, 4);
 				auto tb = SysUtils::TEncoding::Unicode->fromUtf8(name);
-				hs->Write(tb.data(), tb.size());
-				hs->Write(&zero4b, 4);
+				hs.Write(tb.data(), tb.size());
+				hs.Write(&zero4b, 4);
 
-				set_start_header(parent->write_block(hs, start_header, false));
-				delete hs;
+				set_start_header(parent->write_block(&hs, start_header, false));
 			}
 			parent->Release();
 		}
 	}
-	delete data;
-	data = nullptr;
-	iscatalog = FileIsCatalog::unknown;
-	is_opened = false;
-	_datamodified = false;
-	is_headermodified = false;
 	Lock->Release();
 }
 
@@ -583,6 +586,10 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 
 	delete data;
 	data = nullptr;
+	iscatalog = FileIsCatalog::unknown;
+	is_opened = false;
+	_datamodified = false;
+	is_headermodified = false;
 
 	if (!parent->data_empty()) {
 		auto wname = SysUtils::TEncoding::Unicode->fromUtf8(name);
@@ -598,10 +605,6 @@ int64_t V8File::write_and_close(TStream* Stream, int Length)
 		set_start_header(parent->write_block(&hs, start_header, false));
 		parent->Release();
 	}
-	iscatalog = FileIsCatalog::unknown;
-	is_opened = false;
-	_datamodified = false;
-	is_headermodified = false;
 	Lock->Release();
 
 	if (Length == -1) return Stream->GetSize();
@@ -621,7 +624,13 @@ V8File::~V8File()
 	}
 	_streams.clear();
 
-	close();
+	try {
+		close();
+	}
+	catch (const std::exception &error) {
+		msreg_g.AddError(string("Ошибка записи файла контейнера. ") + error.what())
+			.with("Файл", name);
+	}
 
 	if(parent)
 	{
-- 
2.43.0


From 51139de27e0fb478050839823c6d4ac033171b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 110/122] fix: failure to write the root file of an exported
 table is reported

---
 src/tool1cd/Table.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 0feae99..d683235 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1170,10 +1170,9 @@ void Table::export_table(const boost::filesystem::path &path) const
 	}
 	else root.has_descr = false;
 
-	try {
+	{
 		TFileStream f(dir / "root", fmCreate|fmShareDenyNone);
 		f.Write(&root, sizeof(export_import_table_root));
-	} catch(...) {
 	}
 
 	if (file_data) {
-- 
2.43.0


From 48bfff55bb543b39f2ee00137ac6a5c56ea3a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 111/122] fix: saving a configuration does not delete a
 directory with its contents

---
 src/tool1cd/ConfigStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/ConfigStorage.cpp b/src/tool1cd/ConfigStorage.cpp
index fbb27da..894c40b 100755
--- a/src/tool1cd/ConfigStorage.cpp
+++ b/src/tool1cd/ConfigStorage.cpp
@@ -521,7 +521,7 @@ bool ConfigStorageTable::save_config(const boost::filesystem::path &file_name)
 	}
 
 	if(boost::filesystem::exists(file_name)) {
-		boost::filesystem::remove_all(file_name);
+		boost::filesystem::remove(file_name);
 	}
 
 	size_t prevj = 101;
-- 
2.43.0


From 6dde2dbe3ef37bc18eab813a22869982da79f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 112/122] fix: report values that cannot be exported to files
 as an error

---
 src/tool1cd/Table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d683235..67ebb61 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1006,7 +1006,7 @@ bool Table::export_to_xml(const std::string &_filename, bool blob_to_file, bool
 						}
 					}
 					catch(...) {
-						msreg_g.AddMessage("Не удалось создать каталог blob", MessageState::Warning)
+						msreg_g.AddError("Не удалось создать каталог blob")
 							.with("Таблица", name)
 							.with("Путь", dir.string());
 					}
-- 
2.43.0


From 510e07dbb8d97b68439b5f92986303a7bcf3b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 113/122] fix: exported tables hold no uninitialized memory

---
 src/tool1cd/Table.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 67ebb61..2b7fb95 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1137,7 +1137,7 @@ void Table::export_table(const boost::filesystem::path &path) const
 		return;
 	}
 
-	export_import_table_root root;
+	export_import_table_root root {};
 	if(file_data) {
 		root.has_data = true;
 		auto version = file_data->get_current_version();
@@ -1229,7 +1229,7 @@ void Table::import_table(const boost::filesystem::path &path)
 		return;
 	}
 
-	export_import_table_root root;
+	export_import_table_root root {};
 	if (open_import_file(name, dir, "root")->Read(&root, sizeof(root)) != sizeof(root)) {
 		throw DetailedException("Файл импорта таблицы root поврежден")
 			.add_detail("Таблица", name)
-- 
2.43.0


From 5a6ae48ab87b90cf9db4d8d48c013750736b8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 114/122] fix: fix: parse and write deeply nested texts and
 long numbers

---
 src/tool1cd/Parse_tree.cpp | 95 +++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 37 deletions(-)

diff --git a/src/tool1cd/Parse_tree.cpp b/src/tool1cd/Parse_tree.cpp
index 88e1178..5044065 100755
--- a/src/tool1cd/Parse_tree.cpp
+++ b/src/tool1cd/Parse_tree.cpp
@@ -30,7 +30,7 @@ using namespace System;
 using namespace std;
 
 const boost::regex exp_number("^-?\\d+$");
-const boost::regex exp_number_exp("^-?\\d+(\\.?\\d*)?((e|E)-?\\d+)?$");
+const boost::regex exp_number_exp("^-?\\d+(\\.\\d*)?((e|E)-?\\d+)?$");
 const boost::regex exp_guid("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$");
 const boost::regex exp_binary("^#base64:[0-9a-zA-Z\\+=\\r\\n\\/]*$");
 const boost::regex exp_binary2("^[0-9a-zA-Z\\+=\\r\\n\\/]+$");
@@ -69,7 +69,19 @@ Tree::Tree(const string &_value, const node_type _type, Tree *_parent)
 //---------------------------------------------------------------------------
 Tree::~Tree()
 {
-	while(last) delete last;
+	// глубина вложенности не ограничена, поэтому без рекурсии: сначала удаляются самые нижние узлы
+	for(Tree* t = last; t && t != this;)
+	{
+		if(t->last)
+		{
+			t = t->last;
+			continue;
+		}
+		Tree* up = t->parent;
+		Tree* previous = t->prev;
+		delete t;
+		t = previous ? previous : up;
+	}
 	if(prev) prev->next = next;
 	if(next) next->prev = prev;
 	if(parent)
@@ -192,48 +204,57 @@ Tree& Tree::operator [](int _index)
 //---------------------------------------------------------------------------
 void Tree::outtext(std::string &text)
 {
-	node_type lt = node_type::nd_unknown;
-	TReplaceFlags _ReplaceAll = TReplaceFlags::rfReplaceAll;
+	Tree* t = this;
 
-	if(num_subnode || type == node_type::nd_list)
+	// глубина вложенности не ограничена, поэтому без рекурсии
+	while(true)
 	{
-		if (!text.empty()) {
-			text += "\r\n";
+		if(t->num_subnode || t->type == node_type::nd_list)
+		{
+			if (!text.empty()) {
+				text += "\r\n";
+			}
+			text += "{";
+			if(t->first)
+			{
+				t = t->first;
+				continue;
+			}
+			text += "}";
 		}
-		text += "{";
-		Tree* t = first;
-		while(t)
+		else
 		{
-			t->outtext(text);
-			lt = t->type;
-			t = t->next;
-			if(t) text += ",";
+			switch(t->type)
+			{
+				case node_type::nd_string:
+					text += "\"";
+					text += StringReplace(t->value, "\"", "\"\"", rfReplaceAll);
+					text += "\"";
+					break;
+				case node_type::nd_number:
+				case node_type::nd_number_exp:
+				case node_type::nd_guid:
+				case node_type::nd_list:
+				case node_type::nd_binary:
+				case node_type::nd_binary2:
+				case node_type::nd_link:
+				case node_type::nd_binary_d:
+					text += t->value;
+					break;
+				default:
+					break;
+			}
 		}
-		if(lt == node_type::nd_list) text += "\r\n";
-		text += "}";
-	}
-	else
-	{
-		switch(type)
+
+		while(t != this && !t->next)
 		{
-			case node_type::nd_string:
-				text += "\"";
-				text += StringReplace(value, "\"", "\"\"", rfReplaceAll);
-				text += "\"";
-				break;
-			case node_type::nd_number:
-			case node_type::nd_number_exp:
-			case node_type::nd_guid:
-			case node_type::nd_list:
-			case node_type::nd_binary:
-			case node_type::nd_binary2:
-			case node_type::nd_link:
-			case node_type::nd_binary_d:
-				text += value;
-				break;
-			default:
-				break;
+			t = t->parent;
+			if(t->last->type == node_type::nd_list) text += "\r\n";
+			text += "}";
 		}
+		if(t == this) break;
+		text += ",";
+		t = t->next;
 	}
 }
 
-- 
2.43.0


From 2398bb35a2da3ecd3e7c3979cb977cc16887776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 115/122] fix: fix: refuse lengths the format before 8.3.8
 cannot hold

---
 src/tool1cd/V8Object.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index 0e67b4f..ae18576 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1124,6 +1124,15 @@ void V8Object::set_len(uint64_t _len)
 
 	if(type == v8objtype::data80)
 	{
+		maxlen = (uint64_t)(sizeof(v8ob::blocks) / sizeof(v8ob::blocks[0])) * (sizeof(objtab::blocks) / sizeof(objtab::blocks[0])) * DEFAULT_PAGE_SIZE;
+		if(_len > maxlen)
+		{
+			throw DetailedException("Попытка установки длины файла больше максимальной")
+				.add_detail("Номер страницы файла", to_hex_string(block))
+				.add_detail("Максимальная длина файла", maxlen)
+				.add_detail("Запрошенная длина файла", to_hex_string(_len));
+		}
+
 		b = (v8ob*)base->get_block_for_write(block, true);
 		b->len = _len;
 
-- 
2.43.0


From e9d10135fc2e5489ac96e7b75fcb2f2c22cf03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:19 +0000
Subject: [PATCH 116/122] fix: find the Files section of a description even if
 a field has that name

---
 src/tool1cd/Table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 2b7fb95..06405ea 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1261,7 +1261,8 @@ void Table::import_table(const boost::filesystem::path &path)
 		descr_stream->Read(buf.data(), buf.size());
 		descr = TEncoding::Unicode->toUtf8(buf);
 
-		auto pos_files = descr.find("{\"Files\",");
+		// раздел Files последний, так же может называться поле или индекс
+		auto pos_files = descr.rfind("{\"Files\",");
 		if (pos_files == string::npos) {
 			throw DetailedException("Ошибка поиска раздела Files в файле импорта таблицы descr")
 				.add_detail("Файл", (dir / "descr").string());
-- 
2.43.0


From 947cb1e34f6f4db020985a275e6e15b690e8e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 117/122] fix: do not overwrite a vendor configuration with
 another one of the same name and version

---
 src/ctool1cd/App.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ctool1cd/App.cpp b/src/ctool1cd/App.cpp
index a8c74da..6774d95 100644
--- a/src/ctool1cd/App.cpp
+++ b/src/ctool1cd/App.cpp
@@ -24,6 +24,7 @@
 #include <boost/filesystem/fstream.hpp>
 
 #include <iosfwd>
+#include <set>
 #include <vector>
 
 #include "App.h"
@@ -380,8 +381,14 @@ void App::save_vendors_configs(const boost::filesystem::path& param_path) {
 		return;
 	}
 
+	std::set<string> used_names; // имена уже сохраненных файлов
+
 	for (auto& supplier_config : base1CD->supplier_configs()) {
-		string file_name = to_file_name(supplier_config->name() + " " + supplier_config->version() + CF_STR);
+		string config_name = supplier_config->name() + " " + supplier_config->version();
+		string file_name = to_file_name(config_name + CF_STR);
+		for (int k = 2; !used_names.insert(LowerCase(file_name)).second; k++) {
+			file_name = to_file_name(config_name + " (" + to_string(k) + ")" + CF_STR);
+		}
 		boost::filesystem::path cfpath = param_path / file_name;
 		if ( supplier_config->save_to_file(cfpath) ) {
 			msreg_g.AddMessage("Сохранение конфигурации поставщика завершено.", MessageState::Succesfull)
-- 
2.43.0


From 25a8a0be07f920659cb375e4e4fc0cd89f308d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:24 +0000
Subject: [PATCH 118/122] fix: drop the fraction of a text stored in a number
 without fraction digits

---
 src/tool1cd/BinaryDecimalNumber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool1cd/BinaryDecimalNumber.cpp b/src/tool1cd/BinaryDecimalNumber.cpp
index a3d2b23..792e927 100644
--- a/src/tool1cd/BinaryDecimalNumber.cpp
+++ b/src/tool1cd/BinaryDecimalNumber.cpp
@@ -95,7 +95,7 @@ BinaryDecimalNumber::BinaryDecimalNumber(const std::string &presentation, bool h
 		}
 	}
 
-	if (precision != 0) {
+	if (length != 0 || precision != 0) {
 		parts[FRAC_PART].resize(precision);
 	}
 	int add_length = 0;
-- 
2.43.0


From 19282a7f26b14c4dde02921ff3d9bc91cb4b1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:11 +0000
Subject: [PATCH 119/122] fix: read the state of a table anew after its import

---
 src/tool1cd/Index.cpp |  5 +++++
 src/tool1cd/Table.cpp | 35 ++++++++++++++++++++++++++++++-----
 src/tool1cd/Table.h   |  3 +++
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/tool1cd/Index.cpp b/src/tool1cd/Index.cpp
index 4b1e4af..48e2427 100644
--- a/src/tool1cd/Index.cpp
+++ b/src/tool1cd/Index.cpp
@@ -372,6 +372,11 @@ uint64_t Index::get_start_offset() const
 void Index::set_start_offset(const uint64_t value)
 {
 	start = value;
+	// прочитанное ранее относится к прежнему содержимому файла индексов
+	rootblock = 0;
+	length = 0;
+	recordsindex.clear();
+	recordsindex_complete = false;
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 06405ea..d3edf8d 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -145,10 +145,7 @@ void Table::init(int32_t block_descr)
 	Tree* f;
 	Tree* rt;
 	int32_t j;
-	uint64_t m;
-	uint64_t s;
 	int32_t blockfile[3];
-	uint32_t* buf;
 
 	init();
 
@@ -351,6 +348,22 @@ void Table::init(int32_t block_descr)
 			.add_detail("Таблица", name)
 			.add_detail("Блок индексов", to_hex_string(blockfile[2]));
 	}
+
+	init_indexes();
+	init_records(block_descr);
+
+	bad = false;
+
+}
+
+//---------------------------------------------------------------------------
+// читает смещения индексов
+void Table::init_indexes()
+{
+	uint64_t m;
+	uint64_t s;
+	uint32_t* buf;
+
 	if(file_index)
 	{
 		m = file_index->get_len() / base->get_pagesize();
@@ -418,6 +431,12 @@ void Table::init(int32_t block_descr)
 
 	}
 
+}
+
+//---------------------------------------------------------------------------
+// определяет длину и количество записей
+void Table::init_records(int32_t block_descr)
+{
 	// вычисляем длину записи таблицы как сумму длинн полей и проставим смещения полей в записи
 	recordlen = 1; // первый байт записи - признак удаленности
 	// сначала идут поля (поле) с типом "версия"
@@ -464,8 +483,6 @@ void Table::init(int32_t block_descr)
 	// Инициализация данных индекса
 	for(int32_t i = 0; i < num_indexes; i++) indexes[i]->get_length();
 
-	bad = false;
-
 }
 
 //---------------------------------------------------------------------------
@@ -1320,6 +1337,14 @@ void Table::import_table(const boost::filesystem::path &path)
 
 	base->flush();
 
+	// прочитанное до загрузки относится к прежнему содержимому таблицы
+	recordsindex.clear();
+	recordsindex_complete = false;
+	numrecords_found = 0;
+	log_numrecords = 0;
+	init_indexes();
+	init_records(descr_table ? descr_table->get_block_number() : 0);
+
 }
 
 //---------------------------------------------------------------------------
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index a8d26d4..a2f3379 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -214,6 +214,9 @@ private:
 	bool issystem; // Признак системной таблицы (имя таблицы не начинается с подчеркивания)
 	int32_t lockinmemory; // счетчик блокировок в памяти
 
+	void init_indexes(); // чтение смещений индексов
+	void init_records(int32_t block_descr); // определение длины и количества записей
+
 	void delete_fields();
 	void delete_indexes();
 
-- 
2.43.0


From a926820af14a1b6346d8f51f3fe3b8e867cd77e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:22 +0000
Subject: [PATCH 120/122] fix: refuse an import of files that would make the
 database unreadable

---
 src/tool1cd/Table.cpp | 71 +++++++++++++++++++++++++++++--------------
 src/tool1cd/Table.h   |  1 +
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index d3edf8d..65b6df9 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -357,32 +357,27 @@ void Table::init(int32_t block_descr)
 }
 
 //---------------------------------------------------------------------------
-// читает смещения индексов
-void Table::init_indexes()
+// проверяет начало файла индексов и возвращает смещения индексов
+std::vector<uint64_t> Table::get_index_offsets(uint64_t index_len, const uint32_t *buf) const
 {
 	uint64_t m;
 	uint64_t s;
-	uint32_t* buf;
+	std::vector<uint64_t> offsets;
 
-	if(file_index)
 	{
-		m = file_index->get_len() / base->get_pagesize();
-		if(file_index->get_len() != m * base->get_pagesize())
+		m = index_len / base->get_pagesize();
+		if(index_len != m * base->get_pagesize())
 		{
 			throw DetailedException("Ошибка чтения индексов. Длина файла индексов не кратна размеру страницы")
 				.add_detail("Таблица", name)
-				.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()));
+				.add_detail("Длина файла индексов", to_hex_string(index_len));
 		}
 		{
-			int32_t buflen = num_indexes * 4 + 4;
-			buf = new uint32_t[num_indexes + 1];
-			file_index->get_data(buf, 0, buflen);
-
-			if(buf[0] * base->get_pagesize() >= file_index->get_len())
+			if(buf[0] * base->get_pagesize() >= index_len)
 			{
 				throw DetailedException("Ошибка чтения индексов. Индекс первого свободного блока за пределами файла индексов")
 					.add_detail("Таблица", name)
-					.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+					.add_detail("Длина файла индексов", to_hex_string(index_len))
 					.add_detail("Индекс свободной страницы", to_hex_string(buf[0]));
 			}
 			{
@@ -390,11 +385,11 @@ void Table::init_indexes()
 				{
 					if(base->get_version() < db_ver::ver8_3_8_0)
 					{
-						if(buf[i] >= file_index->get_len())
+						if(buf[i] >= index_len)
 						{
 							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
 								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+								.add_detail("Длина файла индексов", to_hex_string(index_len))
 								.add_detail("Номер индекса", i)
 								.add_detail("Смещение индекса", to_hex_string(buf[i]));
 						}
@@ -402,35 +397,49 @@ void Table::init_indexes()
 						{
 							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса не кратно 4 Кб")
 								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", to_hex_string(file_index->get_len()))
+								.add_detail("Длина файла индексов", to_hex_string(index_len))
 								.add_detail("Номер индекса", i)
 								.add_detail("Смещение индекса", to_hex_string(buf[i]));
 						}
-						indexes[i - 1]->set_start_offset(buf[i]);
+						offsets.push_back(buf[i]);
 					}
 					else
 					{
 						s = buf[i];
 						s *= base->get_pagesize();
-						if(s >= file_index->get_len())
+						if(s >= index_len)
 						{
 							throw DetailedException("Ошибка чтения индексов. Указанное смещение индекса за пределами файла индексов")
 								.add_detail("Таблица", name)
-								.add_detail("Длина файла индексов", file_index->get_len())
+								.add_detail("Длина файла индексов", index_len)
 								.add_detail("Номер индекса", i)
 								.add_detail("Смещение индекса", s);
 						}
-						indexes[i - 1]->set_start_offset(s);
+						offsets.push_back(s);
 					}
 				}
 			}
 
-			delete[] buf;
-
 		}
 
 	}
 
+	return offsets;
+}
+
+//---------------------------------------------------------------------------
+// читает смещения индексов
+void Table::init_indexes()
+{
+	if(!file_index) return;
+
+	std::vector<uint32_t> buf(num_indexes + 1);
+	if(file_index->get_len() >= buf.size() * sizeof(uint32_t))
+	{
+		file_index->get_data(buf.data(), 0, buf.size() * sizeof(uint32_t));
+	}
+	auto offsets = get_index_offsets(file_index->get_len(), buf.data());
+	for(size_t i = 0; i < offsets.size(); i++) indexes[i]->set_start_offset(offsets[i]);
 }
 
 //---------------------------------------------------------------------------
@@ -1265,6 +1274,24 @@ void Table::import_table(const boost::filesystem::path &path)
 		index_stream = open_import_file(name, dir, "index");
 	}
 
+	// файлы таблицы другого вида сделали бы базу нечитаемой
+	if(data_stream && data_stream->GetSize() % recordlen) {
+		throw DetailedException("Длина загружаемых данных таблицы не кратна длине записи")
+			.add_detail("Таблица", name)
+			.add_detail("Длина данных", data_stream->GetSize())
+			.add_detail("Длина записи", recordlen);
+	}
+	if(index_stream && !num_indexes) {
+		throw DetailedException("В таблице нет индексов, однако загружается файл индексов.")
+			.add_detail("Таблица", name);
+	}
+	if(index_stream) {
+		std::vector<uint32_t> buf(num_indexes + 1);
+		index_stream->Read(buf.data(), buf.size() * sizeof(uint32_t));
+		get_index_offsets(index_stream->GetSize(), buf.data());
+		index_stream->Seek(0, soFromBeginning);
+	}
+
 	bool descr_changed = (data_stream && !file_data) || (blob_stream && !file_blob) || (index_stream && !file_index);
 	string descr;
 	if (descr_changed)
diff --git a/src/tool1cd/Table.h b/src/tool1cd/Table.h
index a2f3379..6e17707 100644
--- a/src/tool1cd/Table.h
+++ b/src/tool1cd/Table.h
@@ -214,6 +214,7 @@ private:
 	bool issystem; // Признак системной таблицы (имя таблицы не начинается с подчеркивания)
 	int32_t lockinmemory; // счетчик блокировок в памяти
 
+	std::vector<uint64_t> get_index_offsets(uint64_t index_len, const uint32_t *buf) const; // проверка начала файла индексов
 	void init_indexes(); // чтение смещений индексов
 	void init_records(int32_t block_descr); // определение длины и количества записей
 
-- 
2.43.0


From 31863d7e55239b58d836885e3fcfaa2c763e5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:07 +0000
Subject: [PATCH 121/122] fix: export the versions of imported files

---
 src/tool1cd/Table.cpp    | 32 +++++++++++++-------------------
 src/tool1cd/V8Object.cpp |  6 ++++++
 src/tool1cd/V8Object.h   |  1 +
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 65b6df9..6d100f6 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1217,14 +1217,16 @@ void Table::export_table(const boost::filesystem::path &path) const
 }
 
 //---------------------------------------------------------------------------
-// версия объекта на его заголовочной странице
-static _version& object_version(T_1CD *base, uint32_t block_number)
+// записывает версию загруженного объекта на его заголовочную страницу
+static void set_object_version(T_1CD *base, V8Object *object, uint32_t version_1, uint32_t version_2)
 {
-	char *page = base->get_block_for_write(block_number, true);
-	if (base->get_version() >= db_ver::ver8_3_8_0) {
-		return reinterpret_cast<v838ob_data*>(page)->version;
-	}
-	return reinterpret_cast<v8ob*>(page)->version;
+	char *page = base->get_block_for_write(object->get_block_number(), true);
+	auto &version = base->get_version() >= db_ver::ver8_3_8_0
+			? reinterpret_cast<v838ob_data*>(page)->version
+			: reinterpret_cast<v8ob*>(page)->version;
+	version.version_1 = version_1;
+	version.version_2 = version_2;
+	object->set_current_version(version_1, version_2);
 }
 
 //---------------------------------------------------------------------------
@@ -1319,9 +1321,7 @@ void Table::import_table(const boost::filesystem::path &path)
 			file_data = new V8Object(base);
 		}
 		file_data->set_data(data_stream.get());
-		auto &version = object_version(base, file_data->get_block_number());
-		version.version_1 = root.data_version_1;
-		version.version_2 = root.data_version_2;
+		set_object_version(base, file_data, root.data_version_1, root.data_version_2);
 	}
 
 	if(blob_stream) {
@@ -1329,9 +1329,7 @@ void Table::import_table(const boost::filesystem::path &path)
 			file_blob = new V8Object(base);
 		}
 		file_blob->set_data(blob_stream.get());
-		auto &version = object_version(base, file_blob->get_block_number());
-		version.version_1 = root.blob_version_1;
-		version.version_2 = root.blob_version_2;
+		set_object_version(base, file_blob, root.blob_version_1, root.blob_version_2);
 	}
 
 	if(index_stream) {
@@ -1339,16 +1337,12 @@ void Table::import_table(const boost::filesystem::path &path)
 			file_index = new V8Object(base);
 		}
 		file_index->set_data(index_stream.get());
-		auto &version = object_version(base, file_index->get_block_number());
-		version.version_1 = root.index_version_1;
-		version.version_2 = root.index_version_2;
+		set_object_version(base, file_index, root.index_version_1, root.index_version_2);
 	}
 
 	if (descr_changed)
 	{
-		auto &version = object_version(base, descr_table->get_block_number());
-		version.version_1 = root.descr_version_1;
-		version.version_2 = root.descr_version_2;
+		set_object_version(base, descr_table, root.descr_version_1, root.descr_version_2);
 
 		descr += "{\"Files\",";
 		descr += file_data ? to_string(file_data->get_block_number()) : string("0");
diff --git a/src/tool1cd/V8Object.cpp b/src/tool1cd/V8Object.cpp
index ae18576..4d77aa2 100755
--- a/src/tool1cd/V8Object.cpp
+++ b/src/tool1cd/V8Object.cpp
@@ -1429,6 +1429,12 @@ _version V8Object::get_current_version() const
 	return version;
 }
 
+void V8Object::set_current_version(uint32_t version_1, uint32_t version_2)
+{
+	version.version_1 = version_1;
+	version.version_2 = version_2;
+}
+
 //---------------------------------------------------------------------------
 V8Object* V8Object::get_first()
 {
diff --git a/src/tool1cd/V8Object.h b/src/tool1cd/V8Object.h
index 9d1cf87..4dbfff8 100644
--- a/src/tool1cd/V8Object.h
+++ b/src/tool1cd/V8Object.h
@@ -123,6 +123,7 @@ public:
 	void get_version(_version* ver); // получает сохраненную версию объекта
 	void write_new_version(); // записывает новую версию объекта
 	_version get_current_version() const;
+	void set_current_version(uint32_t version_1, uint32_t version_2); // после загрузки объекта с этой версией
 
 	V8Object* get_next();
 
-- 
2.43.0


From e5f0d8199093b014dec20e90158029646fa4f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 122/122] fix: read the configuration files anew after an
 import of their table

---
 src/tool1cd/Class_1CD.cpp | 35 ++++++++++++++++++++++++++---------
 src/tool1cd/Class_1CD.h   |  1 +
 src/tool1cd/Table.cpp     |  2 +-
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/tool1cd/Class_1CD.cpp b/src/tool1cd/Class_1CD.cpp
index 20e4169..042a36c 100755
--- a/src/tool1cd/Class_1CD.cpp
+++ b/src/tool1cd/Class_1CD.cpp
@@ -192,6 +192,31 @@ T_1CD::T_1CD()
 	init();
 }
 
+//---------------------------------------------------------------------------
+void T_1CD::forget_files()
+{
+	_supplier_configs.clear();
+	supplier_configs_defined = false;
+
+	delete cs_config;
+	cs_config = nullptr;
+	delete cs_configsave;
+	cs_configsave = nullptr;
+
+	delete _files_config;
+	_files_config = nullptr;
+	delete _files_configsave;
+	_files_configsave = nullptr;
+	delete _files_params;
+	_files_params = nullptr;
+	delete _files_files;
+	_files_files = nullptr;
+	delete _files_configcas;
+	_files_configcas = nullptr;
+	delete _files_configcassave;
+	_files_configcassave = nullptr;
+}
+
 //---------------------------------------------------------------------------
 T_1CD::~T_1CD()
 {
@@ -207,15 +232,7 @@ T_1CD::~T_1CD()
 		root_object = nullptr;
 	}
 
-	delete cs_config;
-	delete cs_configsave;
-
-	delete _files_config;
-	delete _files_configsave;
-	delete _files_params;
-	delete _files_files;
-	delete _files_configcas;
-	delete _files_configcassave;
+	forget_files();
 
 	if(tables)
 	{
diff --git a/src/tool1cd/Class_1CD.h b/src/tool1cd/Class_1CD.h
index c9e781c..ae99696 100755
--- a/src/tool1cd/Class_1CD.h
+++ b/src/tool1cd/Class_1CD.h
@@ -246,6 +246,7 @@ public:
 	uint64_t get_file_length() const; // длина файла базы в байтах
 
 	SupplierConfigs& supplier_configs();
+	void forget_files(); // прочитанные файлы таблиц конфигураций; нужно после изменения этих таблиц
 
 	bool get_block(void* buf, uint32_t block_number, int32_t blocklen = -1); // буфер принадлежит вызывающей процедуре
 	char* get_block(uint32_t block_number) const; // буфер не принадлежит вызывающей стороне (принадлежит memblock)
diff --git a/src/tool1cd/Table.cpp b/src/tool1cd/Table.cpp
index 6d100f6..bfbda5c 100755
--- a/src/tool1cd/Table.cpp
+++ b/src/tool1cd/Table.cpp
@@ -1365,7 +1365,7 @@ void Table::import_table(const boost::filesystem::path &path)
 	log_numrecords = 0;
 	init_indexes();
 	init_records(descr_table ? descr_table->get_block_number() : 0);
-
+	base->forget_files();
 }
 
 //---------------------------------------------------------------------------
-- 
2.43.0

