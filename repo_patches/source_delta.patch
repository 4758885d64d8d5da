From 9309ad8f65d06d22f791baed2496c8035d50b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:42 +0000
Subject: [PATCH 01/49] fix: thread::Begin does not keep an undefined handle
 when pthread_create fails

---
 include/cybozu/thread.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/thread.hpp b/include/cybozu/thread.hpp
index ad92897..8ba0589 100644
--- a/include/cybozu/thread.hpp
+++ b/include/cybozu/thread.hpp
@@ -123,6 +123,7 @@ inline bool Begin(ThreadHandle& hdl, ThreadEntryCallback entryFct, void *arg, in
 		}
 	}
 	ret = pthread_create(&hdl, &attr, entryFct, arg);
+	if (ret) hdl = 0; // pthread_create leaves hdl undefined on failure
 EXIT:
 	if (pthread_attr_destroy(&attr)) {
 		perror("pthread_attr_destroy");
-- 
2.43.0


From cf26daf83c81551976cd1212027f1067a854e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:45 +0000
Subject: [PATCH 02/49] fix: parallel_for reports every exception of the body,
 also one with an empty message or not derived from std::exception

---
 include/cybozu/parallel.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 2d0afec..86b43ce 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -21,11 +21,13 @@ struct Thread : public cybozu::ThreadBase {
 	N end_;
 	N threadIdx_;
 	std::string err_;
+	bool failed_;
 	Thread()
 		: t_(0)
 		, begin_(0)
 		, end_(0)
 		, threadIdx_(0)
+		, failed_(false)
 	{
 	}
 	void init(T& t, N begin, N end, N threadIdx)
@@ -35,6 +37,7 @@ struct Thread : public cybozu::ThreadBase {
 		end_ = end;
 		threadIdx_ = threadIdx;
 		err_.clear();
+		failed_ = false;
 	}
 	void threadEntry()
 	{
@@ -42,11 +45,16 @@ struct Thread : public cybozu::ThreadBase {
 			try {
 				if (!(*t_)(i, threadIdx_)) break;
 			} catch (std::exception& e) {
-				err_ = e.what();
+				failed_ = true;
+				try { err_ = e.what(); } catch (...) {} // no memory for the message
+				break;
+			} catch (...) {
+				failed_ = true;
 				break;
 			}
 		}
 	}
+	bool isFailed() const { return failed_; }
 	const std::string& getErr() const { return err_; }
 };
 
@@ -79,8 +87,7 @@ void parallel_for(T& target, N n, N threadNum)
 			if (!thread[i].joinThread()) throw cybozu::Exception("cybozu:parallel_for:can't joinThread") << i;
 		}
 		for (N i = 0; i < threadNum; i++) {
-			const std::string& err = thread[i].getErr();
-			if (!err.empty()) throw cybozu::Exception("cybozu:paralell_for") << i << err;
+			if (thread[i].isFailed()) throw cybozu::Exception("cybozu:paralell_for") << i << thread[i].getErr();
 		}
 	}
 }
-- 
2.43.0


From 0c3e38c0686cf44f0c2f56d026a79d8f6292fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:45 +0000
Subject: [PATCH 03/49] fix: parallel_for waits for the running workers before
 it destroys their state when a thread cannot be created

---
 include/cybozu/parallel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 86b43ce..92bcf6c 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -30,6 +30,10 @@ struct Thread : public cybozu::ThreadBase {
 		, failed_(false)
 	{
 	}
+	~Thread()
+	{
+		joinThread(); // a running worker uses the members of this class
+	}
 	void init(T& t, N begin, N end, N threadIdx)
 	{
 		t_ = &t;
-- 
2.43.0


From 5e01f5ee2b57760772c638f1f0f552315b0d02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:09 +0000
Subject: [PATCH 04/49] fix: the pipe-based Event retries its read and write
 after EINTR

---
 include/cybozu/event.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/event.hpp b/include/cybozu/event.hpp
index c871b96..81cda9e 100644
--- a/include/cybozu/event.hpp
+++ b/include/cybozu/event.hpp
@@ -13,6 +13,7 @@
 	#include <windows.h>
 #else
 	#include <unistd.h>
+	#include <errno.h>
 #endif
 #include <cybozu/exception.hpp>
 #if CYBOZU_CPP_VERSION >= CYBOZU_CPP_VERSION_CPP11
@@ -106,14 +107,18 @@ public:
 	void wakeup()
 	{
 		char c = 'a';
-		ssize_t size = ::write(pipefd_[1], &c, 1);
-		cybozu::disable_warning_unused_variable(size);
+		ssize_t size;
+		do {
+			size = ::write(pipefd_[1], &c, 1);
+		} while (size < 0 && errno == EINTR);
 	}
 	void wait()
 	{
 		char c;
-		ssize_t size = ::read(pipefd_[0], &c, 1);
-		cybozu::disable_warning_unused_variable(size);
+		ssize_t size;
+		do {
+			size = ::read(pipefd_[0], &c, 1);
+		} while (size < 0 && errno == EINTR);
 	}
 };
 #endif
-- 
2.43.0


From 842ef26200d7322d3107e2b916a49ae005ef6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 05/49] fix: File::read throws at the end of the file instead
 of looping for ever

---
 include/cybozu/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e177a2c..9607044 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -293,6 +293,7 @@ public:
 		char *p = static_cast<char *>(buf);
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("File:read:unexpected end of file") << name_ << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From e94522624ec3f5d4bbf6e107c01fd1e27bedb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 06/49] fix: File does not leak its descriptor when opening for
 append fails after open

---
 include/cybozu/file.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 9607044..e6202c9 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -127,7 +127,17 @@ class File {
 		setHandle(name, mode);
 		if (isOpen()) {
 			if (mode & std::ios::app) {
-				seek(getSize(), std::ios::beg);
+				try {
+					seek(getSize(), std::ios::beg);
+				} catch (...) {
+#ifdef _WIN32
+					::CloseHandle(hdl_);
+#else
+					::close(hdl_);
+#endif
+					hdl_ = INVALID_HANDLE_VALUE;
+					throw;
+				}
 			}
 			return;
 		}
-- 
2.43.0


From 37452c0fc2ce90f29f93447ec89ea68a8dd79c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 07/49] fix: GetFileList reports a readdir error instead of
 returning a truncated list

---
 include/cybozu/file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e6202c9..5963355 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -28,6 +28,7 @@
 		#pragma comment(lib, "User32.lib")
 	#endif
 #else
+	#include <errno.h>
 	#include <stdio.h>
 	#include <unistd.h>
 	#include <sys/types.h>
@@ -619,8 +620,9 @@ inline bool GetFileList(FileList &list, const std::string& dir, const std::strin
 	Handle hdl(::opendir(dir.c_str()));
 	if (!hdl.isValid()) return false;
 	for (;;) {
+		errno = 0;
 		struct dirent *dp = ::readdir(hdl.dir_);
-		if (dp == 0) return true;
+		if (dp == 0) return errno == 0;
 		FileInfo fi(dp->d_name, (uint8_t)dp->d_type);
 		file_local::filterAndPush(list, fi, extension, cond);
 	}
-- 
2.43.0


From ec271c7ad2711fe5da744eddce71ed919c1e4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 08/49] fix: RenameFile does not replace a file created between
 its check and the rename, or hidden by a stat error

---
 include/cybozu/file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 5963355..c842e44 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -497,8 +497,14 @@ inline void RenameFile(const std::string& from, const std::string& to)
 	}
 #ifdef _WIN32
 	bool isOK = ::MoveFileExA(from.c_str(), to.c_str(), MOVEFILE_COPY_ALLOWED | MOVEFILE_WRITE_THROUGH) != 0;
+#else
+#if defined(__linux__) && defined(RENAME_NOREPLACE)
+	// never replace a file which is created after the check above
+	bool isOK = ::renameat2(AT_FDCWD, from.c_str(), AT_FDCWD, to.c_str(), RENAME_NOREPLACE) == 0;
+	if (!isOK && (errno == EINVAL || errno == ENOSYS)) isOK = ::rename(from.c_str(), to.c_str()) == 0; // not supported
 #else
 	bool isOK = ::rename(from.c_str(), to.c_str()) == 0;
+#endif
 #endif
 	if (!isOK) {
 		throw cybozu::Exception("RenameFile") << from << to << cybozu::ErrorNo();
-- 
2.43.0


From 517c84d77da386515f6f3a5f7a05adcf93bdfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:58 +0000
Subject: [PATCH 09/49] fix: ~File closes its descriptor also when the final
 sync fails

---
 include/cybozu/file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index c842e44..e043c63 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -174,6 +174,12 @@ public:
 		if (!doClose_) return;
 		try {
 			sync();
+		} catch (std::exception& e) {
+			fprintf(stderr, "File:dstr:%s\n", e.what());
+		} catch (...) {
+			fprintf(stderr, "File:dstr:unknown\n");
+		}
+		try {
 			close();
 		} catch (std::exception& e) {
 			fprintf(stderr, "File:dstr:%s\n", e.what());
-- 
2.43.0


From 01dadf2264fd55154d13083800380252c6882880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:25 +0000
Subject: [PATCH 10/49] fix: Mmap does not leak its descriptor when there is no
 memory for the error message

---
 include/cybozu/mmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/mmap.hpp b/include/cybozu/mmap.hpp
index c456fda..c652037 100644
--- a/include/cybozu/mmap.hpp
+++ b/include/cybozu/mmap.hpp
@@ -118,7 +118,7 @@ public:
 		::close(fd);
 		return;
 	ERR_EXIT:
-		std::string reason = cybozu::ErrorNo().toString();
+		const cybozu::ErrorNo reason;
 		if (fd != -1) close(fd);
 		throw cybozu::Exception("mmap") << errMsg << fileName << reason;
 	}
-- 
2.43.0


From ca1d88420be1af4603ef094a869a5a30c6b2bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:04 +0000
Subject: [PATCH 11/49] fix: an error of a std::istream is reported and not
 taken for the end of the data

---
 include/cybozu/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/stream.hpp b/include/cybozu/stream.hpp
index 6e03bd0..ff5dacc 100644
--- a/include/cybozu/stream.hpp
+++ b/include/cybozu/stream.hpp
@@ -43,6 +43,10 @@ size_t readSome_inner(void *buf, size_t size, InputStream& is, typename enable_i
 	is.read(static_cast<char *>(buf), size);
 	const int64_t readSize = is.gcount();
 	if (readSize < 0) return 0;
+#ifndef CYBOZU_DONT_USE_EXCEPTION
+	// an error of the source is not the end of the data
+	if (is.bad()) throw cybozu::Exception("stream:readSome_inner:bad stream") << size;
+#endif
 	if (size == 1 && readSize == 0) is.clear();
 	return static_cast<size_t>(readSize);
 }
-- 
2.43.0


From d826cd7ece298e00da9a1f777ce0fad5eae7d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 12/49] fix: Config::load reports a read error instead of
 returning a truncated configuration

---
 include/cybozu/config.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/config.hpp b/include/cybozu/config.hpp
index 1959342..3bf4dcd 100644
--- a/include/cybozu/config.hpp
+++ b/include/cybozu/config.hpp
@@ -366,6 +366,7 @@ public:
 			config_local::split(key, value, line);
 			section->append(key, value);
 		}
+		if (is.bad()) throw cybozu::Exception("config:load:read error");
 	}
 	/**
 		get map
-- 
2.43.0


From 96b80c2489f64f25698af588d9a6c93570922349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 13/49] fix: LineStreamT accepts a line of the maximum size
 followed by CRLF also if the maximum is 0 or 1

---
 include/cybozu/line_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/line_stream.hpp b/include/cybozu/line_stream.hpp
index ac45ab1..52a89b8 100644
--- a/include/cybozu/line_stream.hpp
+++ b/include/cybozu/line_stream.hpp
@@ -58,7 +58,7 @@ public:
 	explicit LineStreamT(Reader& reader, size_t maxLineSize = 1024 * 2)
 		: reader_(reader)
 		, maxLineSize_(maxLineSize)
-		, buf_(maxLineSize * 2, 0)
+		, buf_(maxLineSize < 2 ? maxLineSize + 2 : maxLineSize * 2, 0) // enough for one line and CRLF
 		, bufSize_(0)
 		, next_(buf_.data())
 		, eof_(false)
-- 
2.43.0


From a5290ec8face0d38093ee1f18d4f061f8305fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 14/49] fix: ZlibCompressorT does not leak its state when the
 gzip header can not be written

---
 include/cybozu/zlib.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 41835f0..f2bc3bc 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -69,7 +69,12 @@ public:
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit2") << zlib_local::safePtr(z_.msg);
 			}
 			char header[] = "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03"; /* OS_CODE = 0x03(Unix) */
-			write_os(header, 10);
+			try {
+				write_os(header, 10);
+			} catch (...) {
+				deflateEnd(&z_);
+				throw;
+			}
 		} else {
 			if (deflateInit(&z_, compressionLevel) != Z_OK) {
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit") << zlib_local::safePtr(z_.msg);
-- 
2.43.0


From 47bb34022b070b4ec98887e0876ac1182282ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 15/49] fix: ZlibDecompressorT verifies the checksum and size
 at the end of gzip data

---
 include/cybozu/zlib.hpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index f2bc3bc..981c9fa 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -167,6 +167,7 @@ class ZlibDecompressorT {
 	char buf_[maxBufSize];
 	const bool useGzip_;
 	bool readGzipHeader_;
+	bool readGzipTail_;
 	void readAll(char *buf, size_t size)
 	{
 		cybozu::read(buf, size, is_);
@@ -221,6 +222,21 @@ class ZlibDecompressorT {
 		}
 		throw cybozu::Exception("zlib:ZlibDecompressorT:readGzipHeader:bad gzip header") << std::string(header, 10);
 	}
+	/*
+		verify crc and size at the end of gzip
+	*/
+	void readGzipTail()
+	{
+		char tail[8];
+		size_t n = z_.avail_in < sizeof(tail) ? z_.avail_in : sizeof(tail);
+		memcpy(tail, z_.next_in, n);
+		z_.next_in += n;
+		z_.avail_in -= (uint32_t)n;
+		readAll(tail + n, sizeof(tail) - n);
+		if (cybozu::Get32bitAsLE(&tail[0]) != crc_ || cybozu::Get32bitAsLE(&tail[4]) != totalSize_) {
+			throw cybozu::Exception("zlib:ZlibDecompressorT:readGzipTail:bad crc or size");
+		}
+	}
 	ZlibDecompressorT(const ZlibDecompressorT&);
 	void operator=(const ZlibDecompressorT&);
 public:
@@ -236,6 +252,7 @@ public:
 		, ret_(Z_OK)
 		, useGzip_(useGzip)
 		, readGzipHeader_(false)
+		, readGzipTail_(false)
 	{
 		z_.zalloc = Z_NULL;
 		z_.zfree = Z_NULL;
@@ -285,7 +302,18 @@ public:
 			}
 		} while (size == z_.avail_out);
 
-		return size - z_.avail_out;
+		const uint32_t readSize = size - z_.avail_out;
+		if (useGzip_) {
+			crc_ = crc32(crc_, (const Bytef*)buf, readSize);
+			totalSize_ += readSize;
+			if (ret_ == Z_STREAM_END && !readGzipTail_) {
+				ret_ = Z_DATA_ERROR; // not the end until verified
+				readGzipTail();
+				ret_ = Z_STREAM_END;
+				readGzipTail_ = true;
+			}
+		}
+		return readSize;
 	}
 	bool isEmpty() const { return ret_ == Z_STREAM_END; }
 	void read(void *buf, size_t size)
-- 
2.43.0


From c11368978515e7043acc7846123054515473c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 16/49] fix: CsvReaderT limits the size of a line and not of
 the whole input

---
 include/cybozu/csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index f397105..ea6b197 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -60,6 +60,7 @@ public:
 	{
 		if (eof_) return false;
 		line_++;
+		lineSize_ = 0;
 		out.clear();
 		enum {
 			Top,
-- 
2.43.0


From 2129b4336ba4f6309556c4b7b710d18e30c773fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 17/49] fix: CsvReaderT does not drop a last row that ends with
 an empty field and reports an open quote at the end

---
 include/cybozu/csv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index ea6b197..a9e696a 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -76,7 +76,7 @@ public:
 		std::string str;
 		for (;;) {
 			int c = my_getchar();
-			if (c == EOF && str.empty()) return false;
+			if (c == EOF && state == Top && str.empty() && out.empty()) return false;
 			if (c == CR) continue;
 			switch (state) {
 			case Top:
-- 
2.43.0


From 44b53ecb0e6b15451c85d0775ccdb9bab93fc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 18/49] fix: CsvReaderT does not take the byte 0xff for the end
 of the input

---
 include/cybozu/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index a9e696a..3552198 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -154,12 +154,12 @@ private:
 	int my_getchar()
 	{
 		if (pos_ < bufSize_) {
-			return buf_[pos_++];
+			return static_cast<unsigned char>(buf_[pos_++]);
 		}
 		bufSize_ = cybozu::readSome(buf_, sizeof(buf_), is_);
 		if (bufSize_ > 0) {
 			pos_ = 1;
-			return buf_[0];
+			return static_cast<unsigned char>(buf_[0]);
 		} else {
 			pos_ = 0;
 			eof_ = true;
-- 
2.43.0


From 65b92ddaa3d9d67ebb1ae6486e14957e8ae7aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:34 +0000
Subject: [PATCH 19/49] fix: CsvReader reports a file that can not be opened
 instead of reading an empty table

---
 include/cybozu/csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index 3552198..25f7844 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -256,6 +256,7 @@ public:
 		: ifs_(name.c_str(), std::ios::binary)
 		, csv_(ifs_, sep)
 	{
+		if (!ifs_) throw cybozu::Exception("csv:CsvReader:can't open") << name;
 	}
 	/**
 		get one line from InputStream and push_back() into out
-- 
2.43.0


From bc981b8bb4a11e8e9952976568c570402bafa0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 20/49] fix: a loaded SucVectorT refuses set() like the saved
 one instead of silently breaking its index

---
 include/cybozu/sucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 54c3039..00f3ceb 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -215,6 +215,7 @@ public:
 		} else {
 			initSelTbl();
 		}
+		freezed_ = true;
 	}
 	SucVectorT() : bitSize_(0), freezed_(false) { numTbl_[0] = numTbl_[1] = 0; }
 	SucVectorT(const uint64_t *buf, uint64_t bitSize)
-- 
2.43.0


From 71df90f05898b53588ee03bd568ed661d268da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:47 +0000
Subject: [PATCH 21/49] fix: RandomGenerator does not read beyond the buffer
 for requests of 2 GB and more

---
 include/cybozu/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/random_generator.hpp b/include/cybozu/random_generator.hpp
index 303b31c..be0f0d6 100644
--- a/include/cybozu/random_generator.hpp
+++ b/include/cybozu/random_generator.hpp
@@ -92,7 +92,7 @@ private:
 			return;
 		}
 		const size_t byteSize = sizeof(T) * bufNum;
-		*pb = ::fread(buf, 1, (int)byteSize, fp_) == byteSize;
+		*pb = ::fread(buf, 1, byteSize, fp_) == byteSize;
 	}
 private:
 	FILE *fp_;
-- 
2.43.0


From 1217937dd03968e5cb69497b40fe430c9331046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:10 +0000
Subject: [PATCH 22/49] fix: SocketAddr::set does not leak the IPv4 result if
 IPv6 is forced

---
 include/cybozu/socket.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index c7493bd..461d583 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -255,6 +255,8 @@ public:
 		const int s = getaddrinfo(address.c_str(), portStr, &hints, &result);
 		// s == EAI_AGAIN
 		if (s || forceIpV6) {
+			if (s == 0) freeaddrinfo(result);
+			result = 0;
 			hints.ai_family = AF_INET6;
 			hints.ai_flags |= AI_V4MAPPED;
 			if (getaddrinfo(address.c_str(), portStr, &hints, &result)) {
-- 
2.43.0


From deee4a44c1332300171c8a44ee1c9484c33d8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:10 +0000
Subject: [PATCH 23/49] fix: Socket::setLinger passes the linger structure and
 not the address of it

---
 include/cybozu/socket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 461d583..5477db4 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -712,7 +712,7 @@ public:
 		struct linger linger;
 		linger.l_onoff = l_onoff;
 		linger.l_linger = l_linger;
-		setSocketOption(SO_LINGER, &linger);
+		setSocketOption(SO_LINGER, linger);
 	}
 	/**
 		get receive buffer size
-- 
2.43.0


From a9aacc66563c76564dc0d3429357e4f1fafcdd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:17 +0000
Subject: [PATCH 24/49] fix: Socket::connect and bind release the socket if
 they fail, so that it is not taken for a good one and can be used again

---
 include/cybozu/socket.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 5477db4..847bbd4 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -343,6 +343,13 @@ private:
 	cybozu::socket_local::SocketHandle sd_;
 	Socket(const Socket&);
 	void operator=(const Socket&);
+	// close the socket at the end of the scope unless done
+	struct AutoClose {
+		Socket *s;
+		explicit AutoClose(Socket *s) : s(s) {}
+		~AutoClose() { if (s) s->close(cybozu::DontThrow); }
+		void done() { s = 0; }
+	};
 #ifdef WIN32
 	void setTimeout(int type, int msec)
 	{
@@ -552,6 +559,7 @@ public:
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:connect:socket") << cybozu::NetErrorNo();
 		}
+		AutoClose ac(this);
 		if (msec == 0) {
 			if (::connect(sd_, addr.get(), addr.getSize()) < 0) {
 				throw cybozu::Exception("Socket:connect") << cybozu::NetErrorNo() << addr.toStr();
@@ -571,6 +579,7 @@ public:
 			}
 			setBlocking(true);
 		}
+		ac.done();
 	}
 
 	static const int allowIPv4 = 1;
@@ -586,6 +595,7 @@ public:
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
 		}
+		AutoClose ac(this);
 		setSocketOption(SO_REUSEADDR, 1);
 		struct sockaddr_in6 addr6;
 		struct sockaddr_in addr4;
@@ -607,6 +617,7 @@ public:
 		}
 		if (::bind(sd_, addr, addrLen) == 0) {
 			if (::listen(sd_, SOMAXCONN) == 0) {
+				ac.done();
 				return;
 			}
 		}
-- 
2.43.0


From 80670c9e4900ca8b9ac289312ff346e942ae04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:01 +0000
Subject: [PATCH 25/49] fix: process::Start closes the descriptors of the
 parent in the child, except the pipe that reports a failing exec

---
 include/cybozu/process.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 62c264b..b9f4cee 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -66,6 +66,7 @@ public:
 			fd_[mode] = -1;
 		}
 	}
+	int getFd(Mode mode) const { return fd_[mode]; }
 	int write(const char* buf, size_t size)
 	{
 		return ::write(fd_[Write], buf, size);
@@ -169,8 +170,9 @@ static inline bool Start(Handle* hdl, const std::string& exe, const std::vector<
 		}
 		{
 			const int ret = static_cast<int>(sysconf(_SC_OPEN_MAX));
-			const int maxFd = ret < 0 ? 1024 : maxFd;
+			const int maxFd = ret < 0 ? 1024 : ret;
 			for (int i = 3; i < maxFd; i++) {
+				if (i == pipe.getFd(Pipe::Write)) continue; // closed by execv
 				close(i);
 			}
 		}
-- 
2.43.0


From 3e4bc5d66eacd4bc61a3d3982095816f04b9df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:01 +0000
Subject: [PATCH 26/49] fix: process::Start does not take an interrupted read
 of the status pipe for a started process

---
 include/cybozu/process.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index b9f4cee..3fc5c21 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -23,6 +23,7 @@
 	#include <sys/types.h>
 	#include <sys/wait.h>
 	#include <stdlib.h>
+	#include <errno.h>
 #endif
 
 namespace cybozu {
@@ -73,7 +74,11 @@ public:
 	}
 	int read(char* buf, size_t size)
 	{
-		return ::read(fd_[Read], buf, size);
+		int ret;
+		do {
+			ret = ::read(fd_[Read], buf, size);
+		} while (ret < 0 && errno == EINTR);
+		return ret;
 	}
 	~Pipe()
 	{
-- 
2.43.0


From 7ee91b3d250a4a90333f42a03f5e2be85d02b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:02 +0000
Subject: [PATCH 27/49] fix: process::Start leaves no zombie and does not flush
 the buffers of the parent twice if the program can not be executed

---
 include/cybozu/process.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 3fc5c21..c28cf62 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -189,7 +189,7 @@ ERR_EXIT:
 		*/
 		pipe.write("x", 1);
 		pipe.close(Pipe::Write);
-		::exit(1);
+		::_exit(1);
 	}
 
 	pipe.close(Pipe::Write);
@@ -200,7 +200,8 @@ ERR_EXIT:
 		otherwise gets 'x' from child
 	*/
 	if (pipe.read(buf, 1) == 1) {
-		waitpid(pid, 0, WNOHANG);
+		while (waitpid(pid, 0, 0) < 0 && errno == EINTR) {
+		}
 		return false;
 	}
 
-- 
2.43.0


From e349b7cfc3af5c69ba5a0feb4e86aabf38eb1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:01 +0000
Subject: [PATCH 28/49] fix: quit_signal_handler.hpp includes inttype.hpp that
 defines CYBOZU_NOEXCEPT

---
 include/cybozu/quit_signal_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/quit_signal_handler.hpp b/include/cybozu/quit_signal_handler.hpp
index 4ac2fea..f2e380a 100644
--- a/include/cybozu/quit_signal_handler.hpp
+++ b/include/cybozu/quit_signal_handler.hpp
@@ -15,6 +15,7 @@
 #endif
 #include <stdio.h>
 #include <stdlib.h>
+#include <cybozu/inttype.hpp>
 
 namespace cybozu {
 
-- 
2.43.0


From dca6bb45e60a260554c50524b04534bf00ab8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:27 +0000
Subject: [PATCH 29/49] fix: ssl::ClientSocket::read throws at the end of the
 stream instead of looping for ever

---
 include/cybozu/ssl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 83cbf24..faf3d17 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -156,6 +156,7 @@ public:
 		char *p = (char *)buf;
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("ssl:ClientSocket:read:unexpected end of stream") << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From 16726c9e73a7d48cf09cf63d6352e56eb69d2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:27 +0000
Subject: [PATCH 30/49] fix: ssl::ClientSocket::connect begins a new handshake
 if the object was connected before

---
 include/cybozu/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index faf3d17..e32331f 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -130,7 +130,7 @@ public:
 			throw cybozu::Exception("ssl:ClientSocket:connect:large socket handle") << soc_.sd_;
 		}
 #endif
-		isOK = SSL_set_fd(ssl_, static_cast<int>(soc_.sd_)) != 0;
+		isOK = SSL_clear(ssl_) == 1 && SSL_set_fd(ssl_, static_cast<int>(soc_.sd_)) != 0;
 		if (!isOK) goto ERR_EXIT;
 		isOK = SSL_connect(ssl_) == 1;
 		if (!isOK) goto ERR_EXIT;
-- 
2.43.0


From 1620b6984243cd23302d0f290de4caccaa134944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 31/49] fix: ssl::ClientSocket::close does not report a failure
 if the peer has not closed the connection yet

---
 include/cybozu/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index e32331f..93d803a 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -181,7 +181,7 @@ public:
 	{
 		bool isOK = true;
 		if (soc_.isValid()) {
-			isOK = SSL_shutdown(ssl_) == 1;
+			isOK = SSL_shutdown(ssl_) >= 0; // 0 : close_notify is sent and that of the peer has not been received yet
 			if (!isOK) {
 				Engine::getInstance().putError();
 			}
-- 
2.43.0


From 77f17e3e89b7c95f32b8e34b4215c9ac899974ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:27 +0000
Subject: [PATCH 32/49] fix: ssl::Engine does not free the compression methods
 of OpenSSL 1.1.0 or later, which crashes every program at exit

---
 include/cybozu/ssl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 93d803a..b820bc3 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -40,8 +40,10 @@ struct Engine {
 		ENGINE_cleanup();
 		ERR_free_strings();
 //		CONF_modules_unload(1); // openssl/conf.h
+#if OPENSSL_VERSION_NUMBER < 0x10100000L
 		/* this decreases one leak, but is this correct? */
-		OPENSSL_free(SSL_COMP_get_compression_methods());
+		OPENSSL_free(SSL_COMP_get_compression_methods()); // OpenSSL 1.1.0 or later frees it at exit
+#endif
 	}
 	static Engine& getInstance()
 	{
-- 
2.43.0


From 7c47d9989d430f2e3fd216421ae37213da301302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:51 +0000
Subject: [PATCH 33/49] fix: AlignedArray throws if the size in byte overflows
 instead of allocating a small buffer

---
 include/cybozu/array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/array.hpp b/include/cybozu/array.hpp
index 30df366..3c0fea1 100644
--- a/include/cybozu/array.hpp
+++ b/include/cybozu/array.hpp
@@ -77,6 +77,7 @@ class AlignedArray {
 	size_t allocSize_;
 	T *alloc(size_t size) const
 	{
+		if (size > size_t(-1) / sizeof(T)) throw std::bad_alloc();
 		T *p = static_cast<T*>(AlignedMalloc(size * sizeof(T), N));
 		if (p == 0) throw std::bad_alloc();
 		return p;
-- 
2.43.0


From cad5560f4d9703850ce01b886640173395ba3930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:24 +0000
Subject: [PATCH 34/49] fix: crypto::Hash reports a failing OpenSSL call
 instead of returning a wrong digest, and copies are independent

---
 include/cybozu/crypto.hpp | 46 +++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 78c95e0..48287f8 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -54,15 +54,42 @@ private:
 	Name name_;
 	size_t hashSize_;
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
-	EVP_MD_CTX *ctx_;
+	struct Ctx {
+		EVP_MD_CTX *p;
+		Ctx()
+			: p(EVP_MD_CTX_new())
+		{
+			if (p == 0) throw cybozu::Exception("crypto:Hash:EVP_MD_CTX_new");
+		}
+		Ctx(const Ctx& rhs)
+			: p(EVP_MD_CTX_new())
+		{
+			if (p && EVP_MD_CTX_copy_ex(p, rhs.p) == 1) return;
+			EVP_MD_CTX_free(p);
+			throw cybozu::Exception("crypto:Hash:EVP_MD_CTX_copy_ex");
+		}
+		Ctx& operator=(const Ctx& rhs)
+		{
+			Ctx tmp(rhs);
+			std::swap(p, tmp.p);
+			return *this;
+		}
+		~Ctx()
+		{
+			EVP_MD_CTX_free(p);
+		}
+	};
+	Ctx ctx_;
 	void setCTX(const char *name)
 	{
 		const EVP_MD *md = EVP_get_digestbyname(name);
 		if (md == 0) {
 			throw cybozu::Exception("EVP_get_digestbyname") << name;
 		}
-		EVP_MD_CTX_reset(ctx_);
-		EVP_DigestInit_ex(ctx_, md, NULL);
+		EVP_MD_CTX_reset(ctx_.p);
+		if (EVP_DigestInit_ex(ctx_.p, md, NULL) != 1) {
+			throw cybozu::Exception("crypto:Hash:EVP_DigestInit_ex") << name;
+		}
 	}
 #else
 	union {
@@ -116,22 +143,13 @@ public:
 	explicit Hash(Name name = N_SHA1)
 		: name_(name)
 		, hashSize_(getSize(name))
-#if CYBOZU_USE_OPENSSL_NEW_HASH == 1
-		, ctx_(EVP_MD_CTX_new())
-#endif
 	{
 		reset();
 	}
-#if CYBOZU_USE_OPENSSL_NEW_HASH == 1
-	~Hash()
-	{
-		EVP_MD_CTX_free(ctx_);
-	}
-#endif
 	void update(const void *buf, size_t bufSize)
 	{
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
-		EVP_DigestUpdate(ctx_, buf, bufSize);
+		if (EVP_DigestUpdate(ctx_.p, buf, bufSize) != 1) throw cybozu::Exception("crypto:Hash:EVP_DigestUpdate");
 #else
 		switch (name_) {
 		case N_SHA1:   SHA1_Update(&ctx_.sha1, buf, bufSize);     break;
@@ -176,7 +194,7 @@ public:
 		unsigned char *md = reinterpret_cast<unsigned char*>(out);
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
 		unsigned int len;
-		EVP_DigestFinal_ex(ctx_, md, &len);
+		if (EVP_DigestFinal_ex(ctx_.p, md, &len) != 1) throw cybozu::Exception("crypto:Hash:EVP_DigestFinal_ex");
 #else
 		switch (name_) {
 		case N_SHA1:   SHA1_Final(md, &ctx_.sha1);     break;
-- 
2.43.0


From 8ba6e38ad6d4aba26d4b32cdd030e63000139ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:24 +0000
Subject: [PATCH 35/49] fix: Sha256 and Sha512 with OpenSSL report a failing
 call instead of returning a wrong digest, and copies are independent

---
 include/cybozu/sha2.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/cybozu/sha2.hpp b/include/cybozu/sha2.hpp
index b977a4c..8fcf563 100644
--- a/include/cybozu/sha2.hpp
+++ b/include/cybozu/sha2.hpp
@@ -51,34 +51,53 @@ struct NewHash {
 	static const size_t MD_SIZE = MD_SIZE_;
 	EVP_MD_CTX *mdctx_;
 	const EVP_MD *md_;
+	bool ok_; // false if OpenSSL fails (e.g., no memory)
 	explicit NewHash(const char *name)
 		: mdctx_(EVP_MD_CTX_new())
 		, md_(EVP_get_digestbyname(name))
+		, ok_(false)
 	{
 		if (md_ == 0) {
 			fprintf(stderr, "fatal error NewHash %s\n", name);
 		}
 		assert(md_);
 	}
+	NewHash(const NewHash& rhs)
+		: mdctx_(EVP_MD_CTX_new())
+		, md_(rhs.md_)
+		, ok_(mdctx_ && rhs.ok_ && EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_) == 1)
+	{
+	}
+	NewHash& operator=(const NewHash& rhs)
+	{
+		if (this != &rhs) {
+			ok_ = mdctx_ && rhs.ok_ && EVP_MD_CTX_copy_ex(mdctx_, rhs.mdctx_) == 1;
+		}
+		return *this;
+	}
 	~NewHash()
 	{
 		EVP_MD_CTX_free(mdctx_);
 	}
 	void clear()
 	{
-		EVP_MD_CTX_reset(mdctx_);
-		EVP_DigestInit_ex(mdctx_, md_, NULL);
+		ok_ = mdctx_ && EVP_MD_CTX_reset(mdctx_) == 1 && EVP_DigestInit_ex(mdctx_, md_, NULL) == 1;
 	}
 	void update(const void *buf, size_t bufSize)
 	{
-		EVP_DigestUpdate(mdctx_, buf, bufSize);
+		if (ok_) ok_ = EVP_DigestUpdate(mdctx_, buf, bufSize) == 1;
 	}
+	/*
+		return 0 if failed
+	*/
 	size_t digest(void *md, size_t mdSize, const void *buf, size_t bufSize)
 	{
 		if (mdSize < MD_SIZE) return 0;
 		update(buf, bufSize);
+		if (!ok_) return 0;
 		unsigned int len;
-		EVP_DigestFinal_ex(mdctx_, (unsigned char*)md, &len);
+		ok_ = EVP_DigestFinal_ex(mdctx_, (unsigned char*)md, &len) == 1;
+		if (!ok_) return 0;
 		assert(len == MD_SIZE);
 		return MD_SIZE;
 	}
@@ -144,7 +163,7 @@ public:
 #else
 		std::string md(SHA256_DIGEST_LENGTH, 0);
 #endif
-		digest(&md[0], md.size(), buf, bufSize);
+		md.resize(digest(&md[0], md.size(), buf, bufSize)); // empty if failed
 		return md;
 	}
 #endif
@@ -207,7 +226,7 @@ public:
 #else
 		std::string md(SHA512_DIGEST_LENGTH, 0);
 #endif
-		digest(&md[0], md.size(), buf, bufSize);
+		md.resize(digest(&md[0], md.size(), buf, bufSize)); // empty if failed
 		return md;
 	}
 #endif
-- 
2.43.0


From bea2c07cfc1b43d3534321502f3785764857d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:16 +0000
Subject: [PATCH 36/49] fix: TopScore does not access out of the table after
 getTable or setSize or if the size is 1, and getTable is really const

---
 include/cybozu/nlp/top_score.hpp | 40 ++++++++++++--------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/include/cybozu/nlp/top_score.hpp b/include/cybozu/nlp/top_score.hpp
index 7b4e446..f452e7f 100644
--- a/include/cybozu/nlp/top_score.hpp
+++ b/include/cybozu/nlp/top_score.hpp
@@ -21,53 +21,43 @@ public:
 	typedef std::vector<Pair> Table;
 private:
 	size_t maxSize_;
-	size_t size_;
-	mutable Table tbl_;
+	Table tbl_; // sorted by score
 	TopScore(const TopScore&);
 	void operator=(const TopScore&);
 public:
 	explicit TopScore(size_t maxSize = 10)
 		: maxSize_(maxSize)
-		, size_(0)
 	{
-		tbl_.resize(maxSize_);
+		tbl_.reserve(maxSize_);
 	}
 	void setSize(size_t maxSize)
 	{
 		maxSize_ = maxSize;
-		size_ = 0;
 		tbl_.clear();
+		tbl_.reserve(maxSize_);
 	}
 	void add(Double score, T idx)
 	{
+		size_t pos = tbl_.size();
 		// short cut
-		if (size_ == maxSize_ && score <= tbl_[size_ - 1].score) {
+		if (pos == maxSize_ && (pos == 0 || score <= tbl_[pos - 1].score)) {
 			return;
 		}
-		int pos = -1;
-		if (size_ > 0) {
-			for (size_t i = 0; i < size_; i++) {
-				if (score > tbl_[i].score) {
-					int end = (int)std::min(maxSize_ - 2, size_ - 1);
-					for (int j = end; j >= (int)i; j--) {
-						tbl_[j + 1] = tbl_[j];
-					}
-					pos = (int)i;
-					break;
-				}
+		for (size_t i = 0; i < tbl_.size(); i++) {
+			if (score > tbl_[i].score) {
+				pos = i;
+				break;
 			}
 		}
-		if (size_ < maxSize_) {
-			if (pos < 0) pos = (int)size_;
-			size_++;
-		}
-		if (pos == -1) return;
-		tbl_[pos].score = score;
-		tbl_[pos].idx = idx;
+		if (pos == maxSize_) return;
+		if (tbl_.size() == maxSize_) tbl_.pop_back();
+		Pair p;
+		p.score = score;
+		p.idx = idx;
+		tbl_.insert(tbl_.begin() + pos, p);
 	}
 	const Table& getTable() const
 	{
-		tbl_.resize(size_);
 		return tbl_;
 	}
 };
-- 
2.43.0


From 63e8bae54ceff4dcd363c2d07cf488f74ec2240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:33 +0000
Subject: [PATCH 37/49] fix: begin() of a const SparseVector with
 CompressedPositionTbl does not modify it

---
 include/cybozu/nlp/sparse.hpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 3442ff1..7a63163 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -72,9 +72,8 @@ public:
 */
 
 class CompressedPositionTbl {
-	mutable std::vector<unsigned char> v_;
+	std::vector<unsigned char> v_;
 	size_t lastPos_;
-	mutable bool addDummy_; // add last dummy data into v_ to get speed and avoid buffer overrun
 	friend struct Curr;
 public:
 	struct Curr {
@@ -86,10 +85,6 @@ public:
 			, val_(0)
 			, pos_(0)
 		{
-			if (!tbl.addDummy_) {
-				tbl.v_.push_back(0);
-				tbl.addDummy_ = true;
-			}
 			tbl.setup(*this);
 		}
 		Curr(size_t vecPos)
@@ -99,14 +94,12 @@ public:
 	};
 	CompressedPositionTbl()
 		: lastPos_(0)
-		, addDummy_(false)
 	{
 	}
 	void clear()
 	{
 		v_.clear();
 		lastPos_ = 0;
-		addDummy_ = false;
 	}
 	void reserve(size_t size)
 	{
@@ -114,10 +107,6 @@ public:
 	}
 	void set(size_t pos)
 	{
-		if (addDummy_) {
-			v_.resize(v_.size() - 1);
-			addDummy_ = false;
-		}
 		if (!v_.empty() && pos <= lastPos_) {
 			throw cybozu::Exception("SparseException:CompressedPositionTbl:set:bad order pos") << pos;
 		}
@@ -153,11 +142,11 @@ public:
 	{
 		v_.swap(rhs.v_);
 		std::swap(lastPos_, rhs.lastPos_);
-		std::swap(addDummy_, rhs.addDummy_);
 	}
 private:
 	void setup(Curr& curr) const
 	{
+		if (curr.pos_ >= v_.size()) return; // end
 		unsigned int diff = v_[curr.pos_];
 		unsigned int t = diff >> 6;
 		unsigned int pos = curr.pos_;
-- 
2.43.0


From c46f705cdff52341c207ac9b1e442ddbe2499ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:51 +0000
Subject: [PATCH 38/49] fix: SparseVector::push_back leaves the vector as it
 was if there is no memory

---
 include/cybozu/nlp/sparse.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 7a63163..09b0e96 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -114,6 +114,7 @@ public:
 			throw cybozu::Exception("SparseException:CompressedPositionTbl:set:too large pos") << pos;
 		}
 		unsigned int diff = (unsigned int)(pos - lastPos_);
+		if (v_.capacity() - v_.size() < 4) v_.reserve(v_.capacity() * 2 + 4); // push_back below does not throw
 		lastPos_ = pos;
 		if (diff < (1 << 6)) {
 			v_.push_back((unsigned char)(diff));
@@ -221,8 +222,13 @@ public:
 	}
 	void push_back(size_t pos, const T& x)
 	{
-		posTbl_.set(pos);
 		vec_.push_back(x);
+		try {
+			posTbl_.set(pos);
+		} catch (...) {
+			vec_.pop_back();
+			throw;
+		}
 	}
 	void clear()
 	{
-- 
2.43.0


From b038c45582a49fecd431413b05272e6ba83e43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:20 +0000
Subject: [PATCH 39/49] fix: BitVector::resize keeps its length if there is no
 memory

---
 include/cybozu/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index d53e9fd..26034e6 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -204,10 +204,10 @@ public:
 	}
 	void resize(size_t bitLen)
 	{
-		bitLen_ = bitLen;
 		const size_t n = RoundupBit<T>(bitLen);
 		const size_t r = bitLen % unitBitSize;
 		v_.resize(n);
+		bitLen_ = bitLen;
 		if (r) {
 			v_[n - 1] &= GetMaskBit<T>(r);
 		}
-- 
2.43.0


From eef0d46d517d4e6f3a2274db6f3966dab5b274de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:11 +0000
Subject: [PATCH 40/49] fix: assigning a String to itself does not clear it

---
 include/cybozu/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index fdb41c0..f4485ea 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -615,7 +615,7 @@ public:
 	*/
 	StringT& assign(const StringT& str)
 	{
-		clear(); return append(str);
+		str_.assign(str.str_); return *this;
 	}
 
 	/**
@@ -626,7 +626,7 @@ public:
 	*/
 	StringT& assign(const StringT& str, size_type off, size_type count)
 	{
-		clear(); return append(str, off, count);
+		str_.assign(str.str_, off, count); return *this;
 	}
 
 	/**
@@ -645,7 +645,7 @@ public:
 	*/
 	StringT& assign(const CharT *str)
 	{
-		clear(); return append(str);
+		str_.assign(str); return *this;
 	}
 	StringT& assign(const Char16 *str)
 	{
@@ -659,7 +659,7 @@ public:
 	*/
 	StringT& assign(size_type count, CharT c)
 	{
-		clear(); return append(count, c);
+		str_.assign(count, c); return *this;
 	}
 
 	/**
-- 
2.43.0


From d2d0927ce80e43a48ebc58cb46a737eb31dbe464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:11 +0000
Subject: [PATCH 41/49] fix: FMindexT::init reports that there is no memory for
 the suffix array

---
 include/cybozu/fmindex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index 161c5c4..0a96965 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -150,7 +150,7 @@ public:
 
 		Vec32 sa;
 		sa.resize(dataSize);
-		if (saisxx(&v[0], &sa[0], (int)dataSize, (int)charNum_) == -1) {
+		if (saisxx(&v[0], &sa[0], (int)dataSize, (int)charNum_) != 0) {
 			throw cybozu::Exception("FMindexT:init:saisxx");
 		}
 		Vec bwt;
-- 
2.43.0


From 56d146a2e45c10856104801b98130cb0586585e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:11 +0000
Subject: [PATCH 42/49] fix: a std::istream that can not be read (e.g. not
 opened) is not taken for an empty one

---
 include/cybozu/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/stream.hpp b/include/cybozu/stream.hpp
index ff5dacc..f9181e4 100644
--- a/include/cybozu/stream.hpp
+++ b/include/cybozu/stream.hpp
@@ -45,7 +45,7 @@ size_t readSome_inner(void *buf, size_t size, InputStream& is, typename enable_i
 	if (readSize < 0) return 0;
 #ifndef CYBOZU_DONT_USE_EXCEPTION
 	// an error of the source is not the end of the data
-	if (is.bad()) throw cybozu::Exception("stream:readSome_inner:bad stream") << size;
+	if (is.bad() || (is.fail() && !is.eof())) throw cybozu::Exception("stream:readSome_inner:bad stream") << size;
 #endif
 	if (size == 1 && readSize == 0) is.clear();
 	return static_cast<size_t>(readSize);
-- 
2.43.0


From fb493bce06cd31aacc8e0573694a82e09c12065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:24 +0000
Subject: [PATCH 43/49] fix: process::Start reports a failing exec and
 redirects to /dev/null in a process without standard descriptors

---
 include/cybozu/process.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index c28cf62..926e178 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -55,6 +55,16 @@ public:
 		if (::pipe (fd_) < 0) {
 			return false;
 		}
+		// keep away from the standard descriptors which are replaced in the child
+		for (int i = 0; i < 2; i++) {
+			if (fd_[i] > 2) continue;
+			int fd = ::fcntl (fd_[i], F_DUPFD, 3);
+			if (fd < 0) {
+				return false;
+			}
+			::close(fd_[i]);
+			fd_[i] = fd;
+		}
 		if (::fcntl (fd_[Write], F_SETFD, FD_CLOEXEC) < 0) {
 			return false;
 		}
@@ -92,6 +102,7 @@ bool toDevNull(int fd, int flags)
 	int newFd = open("/dev/null", flags);
 
 	if (newFd < 0) return false;
+	if (newFd == fd) return true;
 
 	int ret = dup2(newFd, fd);
 	close(newFd);
-- 
2.43.0


From 1c570e3218655cdbd8784043fa67698bf98455bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:24 +0000
Subject: [PATCH 44/49] fix: Socket::bind and accept close the socket that the
 object held

---
 include/cybozu/socket.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 847bbd4..8e17a71 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -591,6 +591,7 @@ public:
 	void bind(uint16_t port, int mode = allowIPv4 | allowIPv6)
 	{
 		const int family = (mode & allowIPv6) ? AF_INET6 : AF_INET;
+		close(cybozu::DontThrow); // do not lose an open socket
 		sd_ = ::socket(family, SOCK_STREAM, IPPROTO_TCP);
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
@@ -685,6 +686,7 @@ public:
 	*/
 	void accept(Socket& client, SocketAddr *paddr = 0) const
 	{
+		client.close(cybozu::DontThrow); // do not lose an open socket
 		if (paddr) {
 			struct sockaddr *psa = &paddr->addr_.sa;
 			paddr->addrlen_ = sizeof(paddr->addr_);
-- 
2.43.0


From dcb6359d7023f8f2d20b1c6a2c87a8eea58c8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:19 +0000
Subject: [PATCH 45/49] fix: BitVector keeps its length if there is no memory
 to assign another one

---
 include/cybozu/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 26034e6..508b633 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -188,8 +188,8 @@ void shiftRightBit(T* dst, const T* src, size_t bitLen, size_t shift)
 template<class T>
 class BitVectorT {
 	static const size_t unitBitSize = sizeof(T) * 8;
+	std::vector<T> v_; // before bitLen_ to keep both if an assignment of v_ throws
 	size_t bitLen_;
-	std::vector<T> v_;
 public:
 	typedef T value_type;
 	BitVectorT() : bitLen_(0) {}
-- 
2.43.0


From d929d84892453856df90d014c01df6ee4e605f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:19 +0000
Subject: [PATCH 46/49] fix: SparseVector keeps what it holds if there is no
 memory to assign another one

---
 include/cybozu/nlp/sparse.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 09b0e96..c8b9c54 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -207,6 +207,17 @@ public:
 	SparseVector()
 	{
 	}
+#if CYBOZU_CPP_VERSION >= CYBOZU_CPP_VERSION_CPP11
+	SparseVector(const SparseVector&) = default;
+	SparseVector(SparseVector&&) = default;
+	SparseVector& operator=(SparseVector&&) = default;
+#endif
+	SparseVector& operator=(const SparseVector& rhs)
+	{
+		SparseVector tmp(rhs);
+		swap(tmp);
+		return *this;
+	}
 	template<class Map>
 	void set(const Map& m)
 	{
-- 
2.43.0


From 7989291b21d2bb44940071f2336bc05b574de862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:04 +0000
Subject: [PATCH 47/49] fix: AtomicExchange did not publish earlier writes
 (acquire only)

---
 include/cybozu/atomic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/atomic.hpp b/include/cybozu/atomic.hpp
index dbc07e0..ddfedfd 100644
--- a/include/cybozu/atomic.hpp
+++ b/include/cybozu/atomic.hpp
@@ -56,7 +56,7 @@ struct Tag<4> {
 #ifdef _WIN32
 		return (T)_InterlockedExchange((long*)p, (long)newValue);
 #else
-		return static_cast<T>(__sync_lock_test_and_set(p, newValue));
+		return static_cast<T>(__atomic_exchange_n(p, newValue, __ATOMIC_SEQ_CST));
 #endif
 	}
 };
@@ -92,7 +92,7 @@ struct Tag<8> {
 #ifdef _WIN32
 		return (T)_InterlockedExchange64((int64_t*)p, (int64_t)newValue);
 #else
-		return static_cast<T>(__sync_lock_test_and_set(p, newValue));
+		return static_cast<T>(__atomic_exchange_n(p, newValue, __ATOMIC_SEQ_CST));
 #endif
 	}
 #endif
-- 
2.43.0


From 33e31266c90357c8eb8396daafc253bc86325d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:15 +0000
Subject: [PATCH 48/49] fix: String keeps what it holds if appending or
 assigning text fails

---
 include/cybozu/string.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index f4485ea..534ffa0 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -554,12 +554,13 @@ public:
 	template<class Iterator>
 	StringT& append(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
+		BasicString tmp; // [begin, end) may be a part of this string
 		while (begin != end) {
 			CharT c;
 			c = getOneChar(begin, end);
-			str_.push_back(c);
+			tmp.push_back(c);
 		}
-		return *this;
+		return appendTmp(tmp);
 	}
 
 	// append [begin, end), const pointers
@@ -587,14 +588,15 @@ public:
 	}
 	StringT& append(const Char16 *begin, const Char16 *end)
 	{
+		BasicString tmp;
 		while (begin != end) {
 			Char c;
 			if (!string::GetCharFromUtf16(c, begin, end)) {
 				throw cybozu::Exception("StringT:GetCharFromUtf16");
 			}
-			str_ += c;
+			tmp += c;
 		}
-		return *this;
+		return appendTmp(tmp);
 	}
 	StringT& append(const Char16 *str)
 	{
@@ -649,7 +651,7 @@ public:
 	}
 	StringT& assign(const Char16 *str)
 	{
-		clear(); return append(str);
+		StringT tmp(str); swap(tmp); return *this;
 	}
 
 	/**
@@ -670,7 +672,7 @@ public:
 	template<class Iterator>
 	StringT& assign(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
-		clear(); return append(begin, end);
+		StringT tmp(begin, end); swap(tmp); return *this;
 	}
 
 	// assign [First, end), const pointers
@@ -695,7 +697,7 @@ public:
 	*/
 	StringT& assign(const char *str) // A
 	{
-		clear(); return append(str);
+		StringT tmp(str); swap(tmp); return *this;
 	}
 	/**
 		assign str
@@ -703,7 +705,7 @@ public:
 	*/
 	StringT& assign(const std::string& str) // A
 	{
-		clear(); return append(str);
+		StringT tmp(str); swap(tmp); return *this;
 	}
 
 	/**
@@ -1540,6 +1542,16 @@ private:
 		}
 		return c;
 	}
+	// append tmp which may be destroyed, nothing changes if an exception is thrown
+	StringT& appendTmp(BasicString& tmp)
+	{
+		if (str_.empty()) {
+			str_.swap(tmp);
+		} else {
+			str_.append(tmp);
+		}
+		return *this;
+	}
 	BasicString str_;
 };
 
-- 
2.43.0


From 5707eed2658bda6cdc1b996de516a645770a5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:15 +0000
Subject: [PATCH 49/49] fix: Option can be extended again after an append
 failed for lack of memory

---
 include/cybozu/option.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 5dac705..33653cf 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -358,8 +358,13 @@ class Option {
 		if (optMap_.find(opt) != optMap_.end()) {
 			throw cybozu::Exception("Option::append:duplicate option") << opt;
 		}
-		optMap_[opt] = infoVec_.size();
 		infoVec_.push_back(Info(pvar, mode, isMust, opt, help));
+		try {
+			optMap_[opt] = infoVec_.size() - 1;
+		} catch (...) {
+			infoVec_.pop_back();
+			throw;
+		}
 	}
 
 	template<class T, class U>
@@ -475,8 +480,8 @@ public:
 	{
 		verifyParamMode();
 		*pvar = defaultVal;
-		paramMode_ = P_optional;
 		paramVec_.push_back(Info(pvar, N_is1, false, opt, help));
+		paramMode_ = P_optional;
 	}
 	/*
 		append remain parameter
@@ -489,12 +494,12 @@ public:
 	void appendParamVec(Container<T, Alloc> *pvar, const char *name, const std::string& help = "")
 	{
 		verifyParamMode();
-		paramMode_ = P_variable;
 		remains_.var = option_local::Var(pvar);
 		remains_.mode = N_any;
 		remains_.isMust = false;
 		remains_.opt = name;
 		remains_.help = help;
+		paramMode_ = P_variable;
 	}
 	void appendHelp(const char *opt, const std::string& help = ": show this message")
 	{
-- 
2.43.0

