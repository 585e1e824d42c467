From 4ef17ea18172995d2d1a2400ff5e3abf920fc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 01/56] fix: do not report a match on the line past the final
 newline

A pattern that matches the empty string at a line start (such as ^$) also
matched after the newline that ends the file, and the search reported a line
that does not exist there.
---
 index/grep.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/grep.go b/index/grep.go
index d8af164..1835f9b 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -156,6 +156,11 @@ func (g *grepper) grep2(
 		// start of matched line.
 		str := bytes.LastIndex(buf[:m], nl) + 1
 
+		// a match past the final newline of the file is not on any line.
+		if str == len(buf) {
+			return nil
+		}
+
 		//end of previous line
 		endl := str - 1
 		if endl < 0 {
-- 
2.43.0


From 8320d928d7079d995c75cfd04bdfee4ccfcdc744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 02/56] fix: honour an exclude-file match at the very start of
 a name

MatchString returns the end of the matching line, which is 0 for a file whose
name begins with a newline; only a negative value means no match.
---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index f84d933..531f86d 100644
--- a/index/index.go
+++ b/index/index.go
@@ -196,7 +196,7 @@ func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error)
 		}
 
 		// reject files that match the exclude file pattern
-		if excludeFre != nil && excludeFre.MatchString(name, true, true) > 0 {
+		if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {
 			continue
 		}
 
-- 
2.43.0


From 4c95b163ad351f9d919ed005b7d098c1cb017dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 03/56] fix: do not let the prefix and suffix sets of an
 alternation share storage

stringSet.union reused the receiver's storage, and alternate builds both the
prefix and the suffix set from the same exact set. For alternatives of
different lengths, (d|cd|bcd|abcd)e for example, the trigram query then
required trigrams that a matching text need not contain, and the file was
never searched.
---
 codesearch/index/regexp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/regexp.go b/codesearch/index/regexp.go
index a5686af..ce3fa70 100644
--- a/codesearch/index/regexp.go
+++ b/codesearch/index/regexp.go
@@ -827,9 +827,10 @@ func (s stringSet) maxLen() int { //nolint
 	return m
 }
 
-// union returns the union of s and t, reusing s's storage.
+// union returns the union of s and t. It does not share storage with
+// either: alternate builds both a prefix and a suffix set from one operand.
 func (s stringSet) union(t stringSet, isSuffix bool) stringSet {
-	s = append(s, t...)
+	s = append(s.copy(), t...)
 	s.clean(isSuffix)
 	return s
 }
-- 
2.43.0


From 47c4698cd6ba3f93b28d48371d7e3dd561f9c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 04/56] fix: encode range ends at surrogate halves as
 themselves

utf8.EncodeRune turns a surrogate half into U+FFFD, so a class whose ranges
are split there, [^\x{e000}] or [^\x{e001}] for example, matched the wrong
byte sequences.
---
 codesearch/regexp/utf.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/codesearch/regexp/utf.go b/codesearch/regexp/utf.go
index 858c83c..9e11418 100644
--- a/codesearch/regexp/utf.go
+++ b/codesearch/regexp/utf.go
@@ -254,8 +254,8 @@ func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
 
 	// Finally.  Generate byte matching equivalent for lo-hi.
 	var ulo, uhi [utf8.UTFMax]byte
-	n := utf8.EncodeRune(ulo[:], lo)
-	m := utf8.EncodeRune(uhi[:], hi)
+	n := encodeRune(ulo[:], lo)
+	m := encodeRune(uhi[:], hi)
 	if n != m {
 		panic("codesearch/regexp: bad utf-8 math")
 	}
@@ -266,3 +266,16 @@ func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
 	}
 	b.addBranch(pc)
 }
+
+// encodeRune is utf8.EncodeRune, except that it writes a surrogate half in
+// its natural three-byte form. A range that ends at one, such as the one
+// below U+E000, must not be turned into one that ends at U+FFFD.
+func encodeRune(p []byte, r rune) int {
+	if 0xd800 <= r && r <= 0xdfff {
+		p[0] = 0xe0 | byte(r>>12)
+		p[1] = 0x80 | byte(r>>6)&0x3f
+		p[2] = 0x80 | byte(r)&0x3f
+		return 3
+	}
+	return utf8.EncodeRune(p, r)
+}
-- 
2.43.0


From 6338630cd59999b9bbad6ded3ca3f2c451c6e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 05/56] fix: fold case up to the last rune that has a case
 variant

maxFold predated the Osage, Old Hungarian, Medefaidrin and Adlam letters, so
a case-insensitive search for one of them missed its other case.
---
 codesearch/regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codesearch/regexp/copy.go b/codesearch/regexp/copy.go
index 52d8d40..9838afd 100644
--- a/codesearch/regexp/copy.go
+++ b/codesearch/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 75bef70dc01fd00b78884cbe12555236c0b374b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 06/56] fix: keep an empty first line in the context before a
 match

The lines before a match were cut without their final newline, so that an
empty line at the start of the file, or right after the previous match, was
lost from the context and the client showed wrong line numbers for the rest.
---
 index/grep.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index/grep.go b/index/grep.go
index 1835f9b..4083907 100644
--- a/index/grep.go
+++ b/index/grep.go
@@ -175,10 +175,16 @@ func (g *grepper) grep2(
 
 		lineno += countLines(buf[:str])
 
+		before := lastNLines(buf[:endl], nctx)
+		if str > 0 && buf[0] == '\n' && len(before) < nctx {
+			// lastNLines leaves out a first line that is empty.
+			before = append([][]byte{{}}, before...)
+		}
+
 		more, err := fn(
 			bytes.TrimRight(buf[str:end], "\n"),
 			lineno+1,
-			lastNLines(buf[:endl], nctx),
+			before,
 			firstNLines(buf[end:], nctx))
 		if err != nil {
 			return err
-- 
2.43.0


From 85f294adda4802e852a795269e3393adce4888a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 07/56] fix: let a merged path shadow exactly the names below
 it

The upper bound of a path was built with string(byte), which encodes values
from 0x80 as two bytes, so a path ending in a non-ASCII letter (or in 0x7f)
also removed unrelated files of the first index.
---
 codesearch/index/merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codesearch/index/merge.go b/codesearch/index/merge.go
index 5aa1ecc..5907cba 100644
--- a/codesearch/index/merge.go
+++ b/codesearch/index/merge.go
@@ -66,8 +66,7 @@ func Merge(dst, src1, src2 string) {
 			i1++
 		}
 		lo := i1
-		limit := path[:len(path)-1] + string(path[len(path)-1]+1)
-		for i1 < uint32(ix1.numName) && ix1.Name(i1) < limit {
+		for i1 < uint32(ix1.numName) && strings.HasPrefix(ix1.Name(i1), path) {
 			i1++
 		}
 		hi := i1 //nolint
@@ -85,7 +84,7 @@ func Merge(dst, src1, src2 string) {
 			panic("merge: inconsistent index")
 		}
 		lo = i2
-		for i2 < uint32(ix2.numName) && ix2.Name(i2) < limit {
+		for i2 < uint32(ix2.numName) && strings.HasPrefix(ix2.Name(i2), path) {
 			i2++
 		}
 		hi = i2
-- 
2.43.0


From d21a4b531dc6a6652a94f9c88cea907149c64ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 08/56] fix: fail the build when a file cannot be read or its
 copy cannot be written

A read error in the middle of a file, or a failed write of its copy, was only
logged and the file was missing from an index that looked complete. An error
of the walk itself (a vanished file, a missing directory) was ignored and the
nil FileInfo that comes with it dereferenced.
---
 index/index.go | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/index/index.go b/index/index.go
index 531f86d..94f1f2b 100644
--- a/index/index.go
+++ b/index/index.go
@@ -95,7 +95,11 @@ func (r *IndexRef) writeManifest() error {
 	}
 	defer w.Close()
 
-	return gob.NewEncoder(w).Encode(r)
+	if err := gob.NewEncoder(w).Encode(r); err != nil {
+		return err
+	}
+
+	return w.Close()
 }
 
 func (r *IndexRef) Open() (*Index, error) {
@@ -327,9 +331,33 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	defer w.Close()
 
 	g := gzip.NewWriter(w)
-	defer g.Close()
 
-	return ix.Add(rel, io.TeeReader(r, g)), nil
+	// Add only logs a read error (which a failed write of the copy is as well).
+	c := &errorCatcher{r: io.TeeReader(r, g)}
+	reason := ix.Add(rel, c)
+	if c.err != nil {
+		return "", c.err
+	}
+
+	if err := g.Close(); err != nil {
+		return "", err
+	}
+
+	return reason, w.Close()
+}
+
+// errorCatcher keeps the error, other than io.EOF, that ended a read.
+type errorCatcher struct {
+	r   io.Reader
+	err error
+}
+
+func (c *errorCatcher) Read(p []byte) (int, error) {
+	n, err := c.r.Read(p)
+	if err != nil && err != io.EOF {
+		c.err = err
+	}
+	return n, err
 }
 
 func addDirToIndex(dst, src, path string) error {
@@ -354,7 +382,11 @@ func writeExcludedFilesJson(filename string, files []*ExcludedFile) error {
 	}
 	defer w.Close()
 
-	return json.NewEncoder(w).Encode(files)
+	if err := json.NewEncoder(w).Encode(files); err != nil {
+		return err
+	}
+
+	return w.Close()
 }
 
 func containsString(haystack []string, needle string) bool {
@@ -387,6 +419,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From a3c4c179d8e26ce490067586afbd06a80ac8a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 09/56] fix: do not apply the special and dot file rules to the
 working directory itself

A local repository whose directory is called .config, or like one of its
ignored files, was indexed as empty.
---
 index/index.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/index.go b/index/index.go
index 94f1f2b..65996cb 100644
--- a/index/index.go
+++ b/index/index.go
@@ -429,6 +429,12 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 			return err
 		}
 
+		// The working directory itself is never special or a dot file, whatever
+		// the directory of a local repository is called.
+		if rel == "." && info.IsDir() {
+			return nil
+		}
+
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
 		if containsString(opt.SpecialFiles, name) {
-- 
2.43.0


From 6f9259c934f5d4c9504973b5fce9c4cdaee8d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 10/56] fix: follow a local repository's symbolic link to its
 end

Only one level was resolved, and a relative target was taken relative to the
server's working directory, so a repository configured by a link was indexed
as empty or not at all.
---
 index/index.go | 6 ++----
 vcs/local.go   | 7 +++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/index/index.go b/index/index.go
index 65996cb..a71e57c 100644
--- a/index/index.go
+++ b/index/index.go
@@ -412,10 +412,8 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	defer fileHandle.Close()
 
 	// Resolve the symbolic link
-	if fi, err := os.Stat(src); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(src); err == nil {
-			src = s
-		}
+	if s, err := filepath.EvalSymlinks(src); err == nil {
+		src = s
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
diff --git a/vcs/local.go b/vcs/local.go
index 129edde..49bb70a 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -71,10 +72,8 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 	}
 
 	// Resolve the symbolic link
-	if fi, err := os.Stat(dir); err == nil && fi.Mode()|os.ModeSymlink != 0 {
-		if s, err := os.Readlink(dir); err == nil {
-			dir = s
-		}
+	if s, err := filepath.EvalSymlinks(dir); err == nil {
+		dir = s
 	}
 
 	// Hash all files in the directory
-- 
2.43.0


From 0d72640a32046b4bb077b00c7508f6a5a6f189b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 11/56] fix: an index that cannot be written or read fails that
 repository, not the server

A full disk, or a corrupt index found at startup, ended the whole process
through log.Fatal, and a failed build left its temporary files and its
half-written index directory behind.
---
 codesearch/index/fatal.go        | 33 +++++++++++++++
 codesearch/index/mmap_bsd.go     |  7 ++--
 codesearch/index/mmap_linux.go   |  7 ++--
 codesearch/index/mmap_windows.go |  9 ++--
 codesearch/index/read.go         |  4 +-
 codesearch/index/write.go        | 71 ++++++++++++++++++++++----------
 index/index.go                   | 11 +++--
 searcher/searcher.go             |  9 +++-
 8 files changed, 111 insertions(+), 40 deletions(-)
 create mode 100644 codesearch/index/fatal.go

diff --git a/codesearch/index/fatal.go b/codesearch/index/fatal.go
new file mode 100644
index 0000000..4bc46c0
--- /dev/null
+++ b/codesearch/index/fatal.go
@@ -0,0 +1,33 @@
+package index
+
+import (
+	"errors"
+	"fmt"
+)
+
+// fatalError is what reading or writing an index panics with when it cannot
+// go on: the disk is full, a file cannot be mapped, or an index is corrupt.
+type fatalError struct {
+	error
+}
+
+func fatal(err error) {
+	panic(fatalError{err})
+}
+
+func fatalf(format string, args ...interface{}) {
+	panic(fatalError{fmt.Errorf(format, args...)})
+}
+
+// Recover turns such a panic into an error. It must be deferred directly:
+//
+//	defer index.Recover(&err)
+func Recover(err *error) {
+	switch r := recover().(type) {
+	case nil:
+	case fatalError:
+		*err = errors.New("index: " + r.Error())
+	default:
+		panic(r)
+	}
+}
diff --git a/codesearch/index/mmap_bsd.go b/codesearch/index/mmap_bsd.go
index 9442ab5..4f39d15 100644
--- a/codesearch/index/mmap_bsd.go
+++ b/codesearch/index/mmap_bsd.go
@@ -7,7 +7,6 @@
 package index
 
 import (
-  "log"
   "os"
   "syscall"
 )
@@ -15,11 +14,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    fatal(err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    fatalf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -27,7 +26,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_PRIVATE)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    fatalf("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_linux.go b/codesearch/index/mmap_linux.go
index 8ea561a..5882a37 100644
--- a/codesearch/index/mmap_linux.go
+++ b/codesearch/index/mmap_linux.go
@@ -5,7 +5,6 @@
 package index
 
 import (
-  "log"
   "os"
   "syscall"
 )
@@ -13,11 +12,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    fatal(err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    fatalf("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -25,7 +24,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_SHARED)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    fatalf("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_windows.go b/codesearch/index/mmap_windows.go
index 8f09156..9ae608e 100644
--- a/codesearch/index/mmap_windows.go
+++ b/codesearch/index/mmap_windows.go
@@ -5,7 +5,6 @@
 package index
 
 import (
-	"log"
 	"os"
 	"syscall"
 	"unsafe"
@@ -14,24 +13,24 @@ import (
 func mmapFile(f *os.File) mmapData {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		fatal(err)
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		fatalf("%s: too large for mmap", f.Name())
 	}
 	if size == 0 {
 		return mmapData{f, nil, nil}
 	}
 	h, err := syscall.CreateFileMapping(syscall.Handle(f.Fd()), nil, syscall.PAGE_READONLY, uint32(size>>32), uint32(size), nil)
 	if err != nil {
-		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
+		fatalf("CreateFileMapping %s: %v", f.Name(), err)
 	}
 	defer syscall.CloseHandle(syscall.Handle(h))
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
-		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
+		fatalf("MapViewOfFile %s: %v", f.Name(), err)
 	}
 
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
diff --git a/codesearch/index/read.go b/codesearch/index/read.go
index 5234266..3fc4a8a 100644
--- a/codesearch/index/read.go
+++ b/codesearch/index/read.go
@@ -411,7 +411,7 @@ func mergeOr(l1, l2 []uint32) []uint32 {
 }
 
 func corrupt(file *os.File) {
-  log.Fatalf("corrupt index: %s", file.Name())
+  fatalf("corrupt index: %s", file.Name())
 }
 
 // An mmapData is mmap'ed read-only data from a file.
@@ -429,7 +429,7 @@ func (m *mmapData) close() error {
 func mmap(file string) mmapData {
   f, err := os.Open(file)
   if err != nil {
-    log.Fatal(err)
+    fatal(err)
   }
   return mmapFile(f)
 }
diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..f5b4814 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -61,15 +61,21 @@ const npost = 64 << 20 / 8 // 64 MB worth of post entries
 
 // Create returns a new IndexWriter that will write the index to file.
 func Create(file string) *IndexWriter {
-	return &IndexWriter{
-		trigram:   sparse.NewSet(1 << 24),
-		nameData:  bufCreate(""),
-		nameIndex: bufCreate(""),
-		postIndex: bufCreate(""),
-		main:      bufCreate(file),
-		post:      make([]postEntry, 0, npost),
-		inbuf:     make([]byte, 16384),
-	}
+	ix := &IndexWriter{
+		trigram: sparse.NewSet(1 << 24),
+		post:    make([]postEntry, 0, npost),
+		inbuf:   make([]byte, 16384),
+	}
+	defer func() {
+		if ix.main == nil {
+			ix.Close()
+		}
+	}()
+	ix.nameData = bufCreate("")
+	ix.nameIndex = bufCreate("")
+	ix.postIndex = bufCreate("")
+	ix.main = bufCreate(file)
+	return ix
 }
 
 // A postEntry is an in-memory (trigram, file#) pair.
@@ -248,27 +254,50 @@ func (ix *IndexWriter) Flush() {
 	for _, d := range ix.postData {
 		unmmap(d)  //nolint
 	}
+	ix.postData = nil
 	for _, f := range ix.postFile {
 		f.Close()
 		os.Remove(f.Name())
 	}
+	ix.postFile = nil
 	os.Remove(ix.nameIndex.name)
 	os.Remove(ix.postIndex.name)
 
 	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
 
 	ix.main.flush()
+	if err := ix.main.file.Close(); err != nil {
+		fatalf("closing %s: %v", ix.main.name, err)
+	}
 }
 
+// Close releases what the writer still holds, flushed or not.
 func (ix *IndexWriter) Close() {
-	ix.main.file.Close()
+	if ix.main != nil {
+		ix.main.file.Close()
+	}
+	for _, b := range []*bufWriter{ix.nameData, ix.nameIndex, ix.postIndex} {
+		if b != nil {
+			b.file.Close()
+			os.Remove(b.name)
+		}
+	}
+	for _, d := range ix.postData {
+		unmmap(d)  //nolint
+	}
+	ix.postData = nil
+	for _, f := range ix.postFile {
+		f.Close()
+		os.Remove(f.Name())
+	}
+	ix.postFile = nil
 }
 
 func copyFile(dst, src *bufWriter) {
 	dst.flush()
 	_, err := io.Copy(dst.file, src.finish())
 	if err != nil {
-		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
+		fatalf("copying %s to %s: %v", src.name, dst.name, err)
 	}
 }
 
@@ -276,7 +305,7 @@ func copyFile(dst, src *bufWriter) {
 // It returns the assigned file ID number.
 func (ix *IndexWriter) addName(name string) uint32 {
 	if strings.Contains(name, "\x00") {
-		log.Fatalf("%q: file has NUL byte in name", name)
+		fatalf("%q: file has NUL byte in name", name)
 	}
 
 	ix.nameIndex.writeUint32(ix.nameData.offset())
@@ -292,8 +321,9 @@ func (ix *IndexWriter) addName(name string) uint32 {
 func (ix *IndexWriter) flushPost() {
 	w, err := ioutil.TempFile("", "csearch-index")
 	if err != nil {
-		log.Fatal(err)
+		fatal(err)
 	}
+	ix.postFile = append(ix.postFile, w)
 	if ix.Verbose {
 		log.Printf("flush %d entries to %s", len(ix.post), w.Name())
 	}
@@ -304,14 +334,13 @@ func (ix *IndexWriter) flushPost() {
 	data := (*[npost * 8]byte)(unsafe.Pointer(&ix.post[0]))[:len(ix.post)*8]
 	if n, err := w.Write(data); err != nil || n < len(data) {
 		if err != nil {
-			log.Fatal(err)
+			fatal(err)
 		}
-		log.Fatalf("short write writing %s", w.Name())
+		fatalf("short write writing %s", w.Name())
 	}
 
 	ix.post = ix.post[:0]
 	w.Seek(0, 0)  //nolint
-	ix.postFile = append(ix.postFile, w)
 }
 
 // mergePost reads the flushed index entries and merges them
@@ -509,7 +538,7 @@ func bufCreate(name string) *bufWriter {
 		f, err = ioutil.TempFile("", "csearch")
 	}
 	if err != nil {
-		log.Fatal(err)
+		fatal(err)
 	}
 	return &bufWriter{
 		name: f.Name(),
@@ -524,7 +553,7 @@ func (b *bufWriter) write(x []byte) {
 		b.flush()
 		if len(x) >= cap(b.buf) {
 			if _, err := b.file.Write(x); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				fatalf("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -545,7 +574,7 @@ func (b *bufWriter) writeString(s string) {
 		b.flush()
 		if len(s) >= cap(b.buf) {
 			if _, err := b.file.WriteString(s); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				fatalf("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -558,7 +587,7 @@ func (b *bufWriter) offset() uint32 {
 	off, _ := b.file.Seek(0, 1)
 	off += int64(len(b.buf))
 	if int64(uint32(off)) != off {
-		log.Fatalf("index is larger than 4GB")
+		fatalf("index is larger than 4GB")
 	}
 	return uint32(off)
 }
@@ -569,7 +598,7 @@ func (b *bufWriter) flush() {
 	}
 	_, err := b.file.Write(b.buf)
 	if err != nil {
-		log.Fatalf("writing %s: %v", b.name, err)
+		fatalf("writing %s: %v", b.name, err)
 	}
 	b.buf = b.buf[:0]
 }
diff --git a/index/index.go b/index/index.go
index a71e57c..c72bbb7 100644
--- a/index/index.go
+++ b/index/index.go
@@ -102,7 +102,8 @@ func (r *IndexRef) writeManifest() error {
 	return w.Close()
 }
 
-func (r *IndexRef) Open() (*Index, error) {
+func (r *IndexRef) Open() (n *Index, err error) {
+	defer index.Recover(&err)
 	return &Index{
 		Ref: r,
 		idx: index.Open(filepath.Join(r.dir, "tri")),
@@ -147,7 +148,9 @@ func GetRegexpPattern(pat string, ignoreCase bool) string {
 	return "(?m)" + pat
 }
 
-func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error) {
+func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {
+	defer index.Recover(&err)
+
 	startedAt := time.Now()
 
 	n.lck.RLock()
@@ -398,7 +401,9 @@ func containsString(haystack []string, needle string) bool {
 	return false
 }
 
-func indexAllFiles(opt *IndexOptions, dst, src string) error {
+func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
+	defer index.Recover(&err)
+
 	ix := index.Create(filepath.Join(dst, "tri"))
 	defer ix.Close()
 
diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..0ac4512 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -240,10 +240,17 @@ func buildAndOpenIndex(
 	if _, err := os.Stat(idxDir); err != nil {
 		r, err := index.Build(opt, idxDir, vcsDir, url, rev)
 		if err != nil {
+			os.RemoveAll(idxDir) //nolint
 			return nil, err
 		}
 
-		return r.Open()
+		idx, err := r.Open()
+		if err != nil {
+			os.RemoveAll(idxDir) //nolint
+			return nil, err
+		}
+
+		return idx, nil
 	}
 
 	return index.Open(idxDir)
-- 
2.43.0


From 78fd31275f13ed5bed1eb54a9ab5cf12909a3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 12/56] fix: do not index a working directory whose link leads
 nowhere as empty

---
 index/index.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index c72bbb7..76502aa 100644
--- a/index/index.go
+++ b/index/index.go
@@ -417,8 +417,9 @@ func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 	defer fileHandle.Close()
 
 	// Resolve the symbolic link
-	if s, err := filepath.EvalSymlinks(src); err == nil {
-		src = s
+	src, err = filepath.EvalSymlinks(src)
+	if err != nil {
+		return err
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
-- 
2.43.0


From 5ef553cf649f4a81b9e48e389d81cade9ea3a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 13/56] fix: read the excluded files under the lock of the
 searcher

The index could be replaced and its directory deleted between the two steps,
so that the answer was empty.
---
 searcher/searcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 0ac4512..64b35a1 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -137,6 +137,8 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	s.lck.RLock()
+	defer s.lck.RUnlock()
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From 8a2248723f71ebf3ee7b49d32a60b865f6927bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 14/56] fix: keep the new index when the old one cannot be
 removed

The new index is live as soon as it has been swapped in. It was destroyed all
the same when removing the old one failed, and the next search touched
unmapped memory.
---
 searcher/searcher.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 64b35a1..a3bdfb3 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -114,6 +114,9 @@ func (r *foundRefs) removeUnclaimed() error {
 
 // Perform atomic swap of index in the searcher so that the new
 // index is made "live".
+//
+// An error means that the old index could not be removed; the new one is live
+// all the same.
 func (s *Searcher) swapIndexes(idx *index.Index) error {
 	s.lck.Lock()
 	defer s.lck.Unlock()
@@ -389,11 +392,7 @@ func updateAndReindex(
 	}
 
 	if err := s.swapIndexes(idx); err != nil {
-		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
+		log.Printf("failed to destroy old index (%s): %s", name, err)
 	}
 
 	return newRev, true
-- 
2.43.0


From d9fa517408f5132f26085a545656f50c195cc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 15/56] fix: do not drop an update request made right after
 startup

The signal to begin polling went through the channel of the update requests,
so a request made before the searcher had taken the signal found the channel
full and was forgotten.
---
 searcher/searcher.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index a3bdfb3..730ac97 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -23,12 +23,14 @@ type Searcher struct {
 	lck  sync.RWMutex
 	Repo *config.Repo
 
-	// The channel is used to request updates from the API and
-	// to signal that it is ok for searchers to begin polling.
+	// The channel is used to request updates from the API.
 	// It has a buffer size of 1 to allow at most one pending
 	// update at a time.
 	updateCh chan time.Time
 
+	// Closed to signal that it is ok for the searcher to begin polling.
+	beginCh chan empty
+
 	shutdownRequested bool
 	shutdownCh        chan empty
 	doneCh            chan empty
@@ -202,7 +204,7 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 
 // Signal the searcher that it is ok to begin polling the repository.
 func (s *Searcher) begin() {
-	s.updateCh <- time.Now()
+	close(s.beginCh)
 }
 
 // Generate a new index directory in the dbpath. The names are based
@@ -457,6 +459,7 @@ func newSearcher(
 	s := &Searcher{
 		idx:        idx,
 		updateCh:   make(chan time.Time, 1),
+		beginCh:    make(chan empty),
 		Repo:       repo,
 		doneCh:     make(chan empty),
 		shutdownCh: make(chan empty, 1),
@@ -465,7 +468,7 @@ func newSearcher(
 	go func() {
 
 		// each searcher's poller is held until begin is called.
-		<-s.updateCh
+		<-s.beginCh
 
 		// if all forms of updating are turned off, we're done here.
 		if !repo.PollUpdatesEnabled() && !repo.PushUpdatesEnabled() {
-- 
2.43.0


From 601151948093568a3226aaac617eeb8af3143386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 16/56] fix: never miss a shutdown request

The searcher could take the request from the channel before the flag was set,
start another update and then wait for ever for a second request, and an
update that was waiting for its turn began after the shutdown.
---
 searcher/searcher.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 730ac97..a7dd8af 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -31,9 +31,10 @@ type Searcher struct {
 	// Closed to signal that it is ok for the searcher to begin polling.
 	beginCh chan empty
 
-	shutdownRequested bool
-	shutdownCh        chan empty
-	doneCh            chan empty
+	// Closed to request the shutdown.
+	shutdownOnce sync.Once
+	shutdownCh   chan empty
+	doneCh       chan empty
 }
 
 // Struct used to send the results from newSearcherConcurrent function.
@@ -170,10 +171,15 @@ func (s *Searcher) Update() bool {
 
 // Shut down the searcher cleanly, waiting for any indexing operations to complete.
 func (s *Searcher) Stop() {
+	s.shutdownOnce.Do(func() { close(s.shutdownCh) })
+}
+
+func (s *Searcher) shutdownRequested() bool {
 	select {
-	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
+	case <-s.shutdownCh:
+		return true
 	default:
+		return false
 	}
 }
 
@@ -368,6 +374,11 @@ func updateAndReindex(
 	lim.Acquire()
 	defer lim.Release()
 
+	// the shutdown may have been requested while waiting for the token
+	if s.shutdownRequested() {
+		return rev, false
+	}
+
 	repo := s.Repo
 	newRev, err := wd.PullOrClone(vcsDir, repo.Url)
 
@@ -462,7 +473,7 @@ func newSearcher(
 		beginCh:    make(chan empty),
 		Repo:       repo,
 		doneCh:     make(chan empty),
-		shutdownCh: make(chan empty, 1),
+		shutdownCh: make(chan empty),
 	}
 
 	go func() {
@@ -485,7 +496,7 @@ func newSearcher(
 			// Wait for a signal to proceed
 			s.waitForUpdate(delay)
 
-			if s.shutdownRequested {
+			if s.shutdownRequested() {
 				s.completeShutdown()
 				return
 			}
-- 
2.43.0


From fcc42ae84c2d52841ac1598e8b2fb5de39f5b8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 17/56] fix: do not share a working copy between repositories
 with the same URL

---
 searcher/searcher.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index a7dd8af..873f1fd 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -288,8 +288,13 @@ func hashFor(name string) string {
 	return hex.EncodeToString(h.Sum(nil))
 }
 
-// Create a normalized name for the vcs directory of this repo.
-func vcsDirFor(repo *config.Repo) string {
+// Create a normalized name for the vcs directory of this repo. Repos that have
+// their url in common with others may follow different refs of it, so each of
+// them gets a vcs directory of its own.
+func vcsDirFor(name string, repo *config.Repo, sharedUrl bool) string {
+	if sharedUrl {
+		return fmt.Sprintf("vcs-%s", hashFor(repo.Url+"\n"+name))
+	}
 	return fmt.Sprintf("vcs-%s", hashFor(repo.Url))
 }
 
@@ -317,10 +322,17 @@ func MakeAll(cfg *config.Config) (map[string]*Searcher, map[string]error, error)
 	// Channel to receive the results from newSearcherConcurrent function.
 	resultCh := make(chan searcherResult, n)
 
+	// The number of repos that use each url.
+	urls := map[string]int{}
+	for _, repo := range cfg.Repos {
+		urls[repo.Url]++
+	}
+
 	// Start new searchers for all repos in different go routines while
 	// respecting cfg.MaxConcurrentIndexers.
 	for name, repo := range cfg.Repos {
-		go newSearcherConcurrent(cfg.DbPath, name, repo, refs, lim, resultCh)
+		vcsDir := filepath.Join(cfg.DbPath, vcsDirFor(name, repo, urls[repo.Url] > 1))
+		go newSearcherConcurrent(cfg.DbPath, vcsDir, name, repo, refs, lim, resultCh)
 	}
 
 	// Collect the results on resultCh channel for all repos.
@@ -349,7 +361,8 @@ func MakeAll(cfg *config.Config) (map[string]*Searcher, map[string]error, error)
 // Creates a new Searcher that is available for searches as soon as this returns.
 // This will pull or clone the target repo and start watching the repo for changes.
 func New(dbpath, name string, repo *config.Repo) (*Searcher, error) {
-	s, err := newSearcher(dbpath, name, repo, &foundRefs{}, makeLimiter(1))
+	vcsDir := filepath.Join(dbpath, vcsDirFor(name, repo, false))
+	s, err := newSearcher(dbpath, vcsDir, name, repo, &foundRefs{}, makeLimiter(1))
 	if err != nil {
 		return nil, err
 	}
@@ -414,13 +427,11 @@ func updateAndReindex(
 // Creates a new Searcher that is capable of re-claiming an existing index directory
 // from a set of existing manifests.
 func newSearcher(
-	dbpath, name string,
+	dbpath, vcsDir, name string,
 	repo *config.Repo,
 	refs *foundRefs,
 	lim limiter) (*Searcher, error) {
 
-	vcsDir := filepath.Join(dbpath, vcsDirFor(repo))
-
 	log.Printf("Searcher started for %s", name)
 
 	wd, err := vcs.New(repo.Vcs, repo.VcsConfig())
@@ -526,7 +537,7 @@ func newSearcher(
 // It respects the parameter `cfg.MaxConcurrentIndexers` while making the
 // creation of searchers for various repositories concurrent.
 func newSearcherConcurrent(
-	dbpath, name string,
+	dbpath, vcsDir, name string,
 	repo *config.Repo,
 	refs *foundRefs,
 	lim limiter,
@@ -536,7 +547,7 @@ func newSearcherConcurrent(
 	lim.Acquire()
 	defer lim.Release()
 
-	s, err := newSearcher(dbpath, name, repo, refs, lim)
+	s, err := newSearcher(dbpath, vcsDir, name, repo, refs, lim)
 	if err != nil {
 		resultCh <- searcherResult{
 			name: name,
-- 
2.43.0


From 60b7581319afb5ff755ff20efb2779b69f71a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 18/56] fix: reuse an index only once and only for the options
 it was built with

---
 index/index.go       | 23 +++++++++++++++++++++++
 searcher/searcher.go | 28 +++++++++++-----------------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/index/index.go b/index/index.go
index 76502aa..f68166a 100644
--- a/index/index.go
+++ b/index/index.go
@@ -82,12 +82,21 @@ type IndexRef struct {
 	Time               time.Time
 	dir                string
 	AutoGeneratedFiles []string
+	ExcludeDotFiles    bool
+	SpecialFiles       []string
 }
 
 func (r *IndexRef) Dir() string {
 	return r.dir
 }
 
+// Determines if the index was built with the given options.
+func (r *IndexRef) BuiltWith(opt *IndexOptions) bool {
+	return r.ExcludeDotFiles == opt.ExcludeDotFiles &&
+		equalStrings(r.SpecialFiles, opt.SpecialFiles) &&
+		equalStrings(r.AutoGeneratedFiles, opt.AutoGeneratedFiles)
+}
+
 func (r *IndexRef) writeManifest() error {
 	w, err := os.Create(filepath.Join(r.dir, manifestFilename))
 	if err != nil {
@@ -401,6 +410,18 @@ func containsString(haystack []string, needle string) bool {
 	return false
 }
 
+func equalStrings(a, b []string) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
 	defer index.Recover(&err)
 
@@ -552,6 +573,8 @@ func Build(opt *IndexOptions, dst, src, url, rev string) (*IndexRef, error) {
 		Time:               time.Now(),
 		dir:                dst,
 		AutoGeneratedFiles: opt.AutoGeneratedFiles,
+		ExcludeDotFiles:    opt.ExcludeDotFiles,
+		SpecialFiles:       opt.SpecialFiles,
 	}
 
 	if err := r.writeManifest(); err != nil {
diff --git a/searcher/searcher.go b/searcher/searcher.go
index 873f1fd..43052ec 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -72,29 +72,24 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Claim an Index ref for the repo url and rev that was built with the same
+ * options and that no other searcher has claimed, returns nil if no such ref
+ * exists. This ensures the ref will not be garbage collected at the end of
+ * startup.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string, opt *index.IndexOptions) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -459,12 +454,11 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev, opt)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From 99d0061ce89da1fe2a181b4aacc24ee396af3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 19/56] fix: find the existing indexes, and only those,
 whatever the dbpath is called

---
 searcher/searcher.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 43052ec..2454998 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"sync"
 	"time"
@@ -208,6 +209,9 @@ func (s *Searcher) begin() {
 	close(s.beginCh)
 }
 
+// The names that nextIndexDir generates.
+var indexDirName = regexp.MustCompile(`^idx-[0-9a-f]{8,16}$`)
+
 // Generate a new index directory in the dbpath. The names are based
 // on pseudo-randomness with a time-based seed.
 func nextIndexDir(dbpath string) string {
@@ -218,14 +222,17 @@ func nextIndexDir(dbpath string) string {
 // Read the refs associated with each of the index dirs
 // in the given dbpath.
 func findExistingRefs(dbpath string) (*foundRefs, error) {
-	dirs, err := filepath.Glob(filepath.Join(dbpath, "idx-*"))
+	entries, err := ioutil.ReadDir(dbpath)
 	if err != nil {
 		return nil, err
 	}
 
 	var refs []*index.IndexRef
-	for _, dir := range dirs {
-		r, _ := index.Read(dir)
+	for _, entry := range entries {
+		if !entry.IsDir() || !indexDirName.MatchString(entry.Name()) {
+			continue
+		}
+		r, _ := index.Read(filepath.Join(dbpath, entry.Name()))
 		refs = append(refs, r)
 	}
 
-- 
2.43.0


From 87fcce8e2cde1d53fb972120a91b0c04addbb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 20/56] fix: start even if an old index cannot be removed

---
 searcher/searcher.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 2454998..6df2092 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -95,7 +95,7 @@ func (r *foundRefs) claim(url, rev string, opt *index.IndexOptions) *index.Index
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
  */
-func (r *foundRefs) removeUnclaimed() error {
+func (r *foundRefs) removeUnclaimed() {
 	r.lock.Lock()
 	defer r.lock.Unlock()
 
@@ -105,10 +105,9 @@ func (r *foundRefs) removeUnclaimed() error {
 		}
 
 		if err := ref.Remove(); err != nil {
-			return err
+			log.Printf("failed to remove old index: %s", err)
 		}
 	}
-	return nil
 }
 
 // Perform atomic swap of index in the searcher so that the new
@@ -348,9 +347,7 @@ func MakeAll(cfg *config.Config) (map[string]*Searcher, map[string]error, error)
 		searchers[r.name] = r.searcher
 	}
 
-	if err := refs.removeUnclaimed(); err != nil {
-		return nil, nil, err
-	}
+	refs.removeUnclaimed()
 
 	// after all the repos are in good shape, we start their polling
 	for _, s := range searchers {
-- 
2.43.0


From 55c219c3d7def671f96bda1b2a11c38d628411d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 21/56] fix: an index that is only partly removed must not be
 used again

---
 index/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/index.go b/index/index.go
index f68166a..02e7719 100644
--- a/index/index.go
+++ b/index/index.go
@@ -120,6 +120,11 @@ func (r *IndexRef) Open() (n *Index, err error) {
 }
 
 func (r *IndexRef) Remove() error {
+	// The manifest goes first: what is left if the removal does not get to its
+	// end must not look like a complete index.
+	if err := os.Remove(filepath.Join(r.dir, manifestFilename)); err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	return os.RemoveAll(r.dir)
 }
 
-- 
2.43.0


From dc66ea0e05f7d4f8027bf85134927c4a5691e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 22/56] fix: build a new index if an existing one cannot be
 opened

---
 searcher/searcher.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 6df2092..41bb5dd 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -457,23 +457,27 @@ func newSearcher(
 		AutoGeneratedFiles: autoFiles,
 	}
 
-	var idxDir string
-	ref := refs.claim(repo.Url, rev, opt)
-	if ref == nil {
-		idxDir = nextIndexDir(dbpath)
-	} else {
-		idxDir = ref.Dir()
+	var idx *index.Index
+	if ref := refs.claim(repo.Url, rev, opt); ref != nil {
+		if idx, err = index.Open(ref.Dir()); err != nil {
+			log.Printf("failed to open index, building a new one (%s): %s", name, err)
+			if err := ref.Remove(); err != nil {
+				log.Printf("failed to remove index (%s): %s", name, err)
+			}
+		}
 	}
 
-	idx, err := buildAndOpenIndex(
-		opt,
-		dbpath,
-		vcsDir,
-		idxDir,
-		repo.Url,
-		rev)
-	if err != nil {
-		return nil, err
+	if idx == nil {
+		idx, err = buildAndOpenIndex(
+			opt,
+			dbpath,
+			vcsDir,
+			nextIndexDir(dbpath),
+			repo.Url,
+			rev)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	s := &Searcher{
-- 
2.43.0


From 848943c23d220e7608a983605a9cab62da1f872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 23/56] fix: never take a partly cloned working copy for a
 complete one

---
 vcs/vcs.go | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/vcs/vcs.go b/vcs/vcs.go
index 26f0d4d..ba86f71 100644
--- a/vcs/vcs.go
+++ b/vcs/vcs.go
@@ -4,6 +4,9 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"path/filepath"
+	"strings"
+	"time"
 )
 
 // A collection that maps vcs names to their underlying
@@ -77,5 +80,44 @@ func (w *WorkDir) PullOrClone(dir, url string) (string, error) {
 	if exists(dir) {
 		return w.Pull(dir)
 	}
-	return w.Clone(dir, url)
+	return w.Reclone(dir, url)
+}
+
+// Clone next to the working directory and put the result in its place, so that
+// a working directory that is there has been cloned completely. An existing
+// working directory is replaced if, and only if, the clone succeeds.
+func (w *WorkDir) Reclone(dir, url string) (string, error) {
+	// remove what a crash may have left behind
+	prefix := filepath.Base(dir) + ".tmp-"
+	entries, err := os.ReadDir(filepath.Dir(dir))
+	if err != nil {
+		return "", err
+	}
+	for _, entry := range entries {
+		if strings.HasPrefix(entry.Name(), prefix) {
+			os.RemoveAll(filepath.Join(filepath.Dir(dir), entry.Name())) //nolint
+		}
+	}
+
+	tmp := fmt.Sprintf("%s.tmp-%d", dir, time.Now().UnixNano())
+	if _, err := w.Clone(tmp, url); err != nil {
+		os.RemoveAll(tmp) //nolint
+		return "", err
+	}
+
+	// The old one is moved away first: one that is only partly removed must not
+	// be found here either.
+	old := tmp + "-old"
+	defer os.RemoveAll(old) //nolint
+	if err := os.Rename(dir, old); err != nil && !os.IsNotExist(err) {
+		os.RemoveAll(tmp) //nolint
+		return "", err
+	}
+
+	if err := os.Rename(tmp, dir); err != nil {
+		os.RemoveAll(tmp) //nolint
+		return "", err
+	}
+
+	return w.HeadRev(dir)
 }
-- 
2.43.0


From ec0ed8b19bd598d9af19a2054ec6fa55317f8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 24/56] fix: recover at startup from a working copy that cannot
 be updated

---
 searcher/searcher.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 41bb5dd..3e93e3e 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -423,6 +423,30 @@ func updateAndReindex(
 	return newRev, true
 }
 
+// Bring the working copy of the repo up to date at startup, creating it if needed.
+// One that cannot be updated, for instance because a crash has damaged it, is
+// replaced. If that is not possible either (the server may be out of reach), what
+// is there is used as it is.
+func openWorkDir(wd *vcs.WorkDir, vcsDir, name string, repo *config.Repo) (string, error) {
+	_, statErr := os.Stat(vcsDir)
+
+	rev, err := wd.PullOrClone(vcsDir, repo.Url)
+	if err == nil || statErr != nil {
+		return rev, err
+	}
+
+	log.Printf("vcs pull error (%s - %s): %s, cloning anew", name, repo.Url, err)
+	if rev, err := wd.Reclone(vcsDir, repo.Url); err == nil {
+		return rev, nil
+	}
+
+	if rev, headErr := wd.HeadRev(vcsDir); headErr == nil && rev != "" {
+		log.Printf("%s could not be updated, using revision %s", name, rev)
+		return rev, nil
+	}
+	return "", err
+}
+
 // Creates a new Searcher that is capable of re-claiming an existing index directory
 // from a set of existing manifests.
 func newSearcher(
@@ -439,7 +463,7 @@ func newSearcher(
 	}
 
 
-	rev, err := wd.PullOrClone(vcsDir, repo.Url)
+	rev, err := openWorkDir(wd, vcsDir, name, repo)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a44e69dc7a1b8aa405ca3183a7cc04938e344676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 25/56] fix: a git pull that fails is an error, not the old
 revision

---
 vcs/git.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index 54f1dfc..2c29dda 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -85,22 +85,20 @@ func run(desc, dir, cmd string, args ...string) (string, error) {
 			out, err)
 	}
 
-	return string(out), nil
+	return string(out), err
 }
 
 func (g *GitDriver) Pull(dir string) (string, error) {
 	targetRef := g.targetRef(dir)
 
-	if _, err := run("git fetch", dir,
+	_, fetchErr := run("git fetch", dir,
 		"git",
 		"fetch",
 		"--prune",
 		"--no-tags",
 		"--depth", "1",
 		"origin",
-		fmt.Sprintf("+%s:remotes/origin/%s", targetRef, targetRef)); err != nil {
-		return "", err
-	}
+		fmt.Sprintf("+%s:remotes/origin/%s", targetRef, targetRef))
 
 	if _, err := run("git reset", dir,
 		"git",
@@ -110,6 +108,10 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		return "", err
 	}
 
+	if fetchErr != nil {
+		return "", fetchErr
+	}
+
 	return g.HeadRev(dir)
 }
 
@@ -143,7 +145,12 @@ func (g *GitDriver) Clone(dir, url string) (string, error) {
 		return "", err
 	}
 
-	return g.Pull(dir)
+	rev, err := g.Pull(dir)
+	if err != nil {
+		// The target ref may not exist (yet), stay with what was cloned.
+		return g.HeadRev(dir)
+	}
+	return rev, nil
 }
 
 func (g *GitDriver) SpecialFiles() []string {
-- 
2.43.0


From cc2b17dc3c4ab749ac981c7be277b990adba6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 26/56] fix: determine the auto-generated files again with
 every update

---
 searcher/searcher.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 3e93e3e..2da6c12 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -371,6 +371,14 @@ func New(dbpath, name string, repo *config.Repo) (*Searcher, error) {
 	return s, nil
 }
 
+// The files of the working copy that are auto-generated.
+func autoGeneratedFiles(repo *config.Repo, wd *vcs.WorkDir, vcsDir string) []string {
+	if len(repo.AutoGeneratedFiles) > 0 {
+		return repo.AutoGeneratedFiles
+	}
+	return wd.AutoGeneratedFiles(vcsDir)
+}
+
 // Update the vcs and reindex the given repo.
 func updateAndReindex(
 	s *Searcher,
@@ -404,6 +412,7 @@ func updateAndReindex(
 	}
 
 	log.Printf("Rebuilding %s for %s", name, newRev)
+	opt.AutoGeneratedFiles = autoGeneratedFiles(repo, wd, vcsDir)
 	idx, err := buildAndOpenIndex(
 		opt,
 		dbpath,
@@ -468,17 +477,10 @@ func newSearcher(
 		return nil, err
 	}
 
-	var autoFiles []string
-	if len(repo.AutoGeneratedFiles) > 0 {
-		autoFiles = repo.AutoGeneratedFiles
-	} else {
-		autoFiles = wd.AutoGeneratedFiles(vcsDir)
-	}
-
 	opt := &index.IndexOptions{
 		ExcludeDotFiles:    repo.ExcludeDotFiles,
 		SpecialFiles:       wd.SpecialFiles(),
-		AutoGeneratedFiles: autoFiles,
+		AutoGeneratedFiles: autoGeneratedFiles(repo, wd, vcsDir),
 	}
 
 	var idx *index.Index
-- 
2.43.0


From b051db3033d3a2dcad324c57f5a5fd83728f489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 27/56] fix: never take the directory of a local repository for
 a working copy of another vcs

---
 searcher/searcher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 2da6c12..f7f96fa 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -437,6 +437,15 @@ func updateAndReindex(
 // replaced. If that is not possible either (the server may be out of reach), what
 // is there is used as it is.
 func openWorkDir(wd *vcs.WorkDir, vcsDir, name string, repo *config.Repo) (string, error) {
+	// The working copy of a local repo is a link to its directory, that of any
+	// other is a directory. If it is the other way round it has been left by a
+	// repo with the same url but another vcs.
+	if fi, err := os.Lstat(vcsDir); err == nil && (fi.Mode()&os.ModeSymlink != 0) != (repo.Vcs == "local") {
+		if err := os.RemoveAll(vcsDir); err != nil {
+			return "", err
+		}
+	}
+
 	_, statErr := os.Stat(vcsDir)
 
 	rev, err := wd.PullOrClone(vcsDir, repo.Url)
-- 
2.43.0


From 7ced32200bb1bd3585f4974bf9fe633da2d47986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 28/56] fix: answer 404 for the excluded files of an unknown
 repository

---
 api/api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..0a6079a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -234,7 +234,15 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+		searcher := idx[repo]
+		if searcher == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+
+		res := searcher.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From 66c282a95887c0cfa7b25ec47159dda3eccb4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 29/56] fix: answer 404 to an update request for an unknown
 repository

---
 api/api.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/api/api.go b/api/api.go
index 0a6079a..aa24751 100644
--- a/api/api.go
+++ b/api/api.go
@@ -256,16 +256,22 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 			return
 		}
 
-		repos := parseAsRepoList(r.FormValue("repos"), idx)
+		names := r.FormValue("repos")
+		if strings.TrimSpace(names) != "*" {
+			for _, repo := range strings.Split(names, ",") {
+				if repo != "" && idx[repo] == nil {
+					writeError(w,
+						fmt.Errorf("No such repository: %s", repo),
+						http.StatusNotFound)
+					return
+				}
+			}
+		}
+
+		repos := parseAsRepoList(names, idx)
 
 		for _, repo := range repos {
 			searcher := idx[repo]
-			if searcher == nil {
-				writeError(w,
-					fmt.Errorf("No such repository: %s", repo),
-					http.StatusNotFound)
-				return
-			}
 
 			if !searcher.Update() {
 				writeError(w,
-- 
2.43.0


From ace21fe6458ad10552beda4061a3843b739736e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 30/56] fix: numbers too large for an integer are out of range,
 not absent or negative

---
 api/api.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/api/api.go b/api/api.go
index aa24751..7a85854 100644
--- a/api/api.go
+++ b/api/api.go
@@ -122,7 +122,7 @@ func parseAsRepoList(v string, idx map[string]*searcher.Searcher) []string {
 
 func parseAsUintValue(sv string, min, max, def uint) uint {
 	iv, err := strconv.ParseUint(sv, 10, 54)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		return def
 	}
 	if max != 0 && uint(iv) > max {
@@ -135,8 +135,9 @@ func parseAsUintValue(sv string, min, max, def uint) uint {
 }
 
 func parseAsIntValue(sv string, min, max, def int) int {
-	iv, err := strconv.ParseInt(sv, 10, 64)
-	if err != nil {
+	// a value that is out of range is the nearest one that is not
+	iv, err := strconv.ParseInt(sv, 10, strconv.IntSize)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		return def
 	}
 	if max != 0 && int(iv) > max {
@@ -154,8 +155,8 @@ func parseRangeInt(v string, i *int) {
 		return
 	}
 
-	vi, err := strconv.ParseUint(v, 10, 64)
-	if err != nil {
+	vi, err := strconv.ParseUint(v, 10, strconv.IntSize-1)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		return
 	}
 
-- 
2.43.0


From 628bb727f25512553b2f3ab3bdbef93429ca0426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 31/56] fix: do not mistake a file or tag named origin/<ref>
 for the fetched ref

---
 vcs/git.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index 2c29dda..dedcc44 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -104,7 +104,8 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 		"git",
 		"reset",
 		"--hard",
-		fmt.Sprintf("origin/%s", targetRef)); err != nil {
+		fmt.Sprintf("refs/remotes/origin/%s", targetRef),
+		"--"); err != nil {
 		return "", err
 	}
 
-- 
2.43.0


From 38af744a52ef426cf5edc6e44e01bae448862b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 32/56] fix: never run git in a repository around a damaged
 working copy

---
 vcs/git.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vcs/git.go b/vcs/git.go
index dedcc44..3c76be0 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -15,6 +15,11 @@ import (
 const defaultRef = "master"
 const autoGeneratedAttribute = "linguist-generated"
 
+// Keeps git from falling back to a repository that the working directory lies
+// in if the working directory is not one itself, for instance because it is
+// damaged.
+const ownGitDir = "--git-dir=.git"
+
 var headBranchRegexp = regexp.MustCompile(`HEAD branch: (?P<branch>.+)`)
 
 func init() {
@@ -51,6 +56,7 @@ func newGit(b []byte) (Driver, error) {
 func (g *GitDriver) HeadRev(dir string) (string, error) {
 	cmd := exec.Command(
 		"git",
+		ownGitDir,
 		"rev-parse",
 		"HEAD")
 	cmd.Dir = dir
@@ -93,6 +99,7 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 
 	_, fetchErr := run("git fetch", dir,
 		"git",
+		ownGitDir,
 		"fetch",
 		"--prune",
 		"--no-tags",
@@ -102,6 +109,7 @@ func (g *GitDriver) Pull(dir string) (string, error) {
 
 	if _, err := run("git reset", dir,
 		"git",
+		ownGitDir,
 		"reset",
 		"--hard",
 		fmt.Sprintf("refs/remotes/origin/%s", targetRef),
@@ -163,7 +171,7 @@ func (g *GitDriver) SpecialFiles() []string {
 func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 	var files []string
 
-	filesCmd := exec.Command("git", "ls-files", "-z");
+	filesCmd := exec.Command("git", ownGitDir, "ls-files", "-z");
 	filesCmd.Dir = dir
 	pipe, err := filesCmd.StdoutPipe();
 
@@ -177,7 +185,7 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 		return files
 	}
 
-	attributesCmd := exec.Command("git", "check-attr", "--stdin", "-z", autoGeneratedAttribute);
+	attributesCmd := exec.Command("git", ownGitDir, "check-attr", "--stdin", "-z", autoGeneratedAttribute);
 	attributesCmd.Dir = dir
 	attributesCmd.Stdin = pipe
 
@@ -208,6 +216,7 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 func (d *headBranchDetector) detectRef(dir string) string {
 	output, err := run("git show remote info", dir,
 		"git",
+		ownGitDir,
 		"remote",
 		"show",
 		"origin",
-- 
2.43.0


From f9f8e32fd96b962253495935f519bfa1349753c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 33/56] fix: hash links, special files and odd file names of a
 watched local directory

---
 vcs/local.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/vcs/local.go b/vcs/local.go
index 49bb70a..64269ff 100644
--- a/vcs/local.go
+++ b/vcs/local.go
@@ -4,12 +4,12 @@ import (
 	"crypto/sha1"
 	"encoding/hex"
 	"encoding/json"
-	"errors"
 	"fmt"
 	"io"
 	"os"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	"golang.org/x/mod/sumdb/dirhash"
@@ -44,13 +44,13 @@ func myHash(files []string, open func(string) (io.ReadCloser, error)) (string, e
 	files = append([]string(nil), files...)
 	sort.Strings(files)
 	for _, file := range files {
-		if strings.Contains(file, "\n") {
-			return "", errors.New("dirhash: filenames with newlines are not supported")
-		}
 		r, err := open(file)
 		if err != nil {
 			return "", err
 		}
+		if strings.Contains(file, "\n") || strings.HasPrefix(file, "\"") {
+			file = strconv.Quote(file)
+		}
 		hf := sha1.New()
 		_, err = io.Copy(hf, r)
 		r.Close()
@@ -62,6 +62,27 @@ func myHash(files []string, open func(string) (io.ReadCloser, error)) (string, e
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
+// Open what is hashed for the given path. Only regular files have content, for all
+// others it is the type, and the target of a link.
+func openForHash(path string) (io.ReadCloser, error) {
+	fi, err := os.Lstat(path)
+	if err != nil {
+		return nil, err
+	}
+	if fi.Mode().IsRegular() {
+		return os.Open(path)
+	}
+	desc := "\x00" + fi.Mode().Type().String()
+	if fi.Mode()&os.ModeSymlink != 0 {
+		target, err := os.Readlink(path)
+		if err != nil {
+			return nil, err
+		}
+		desc += "\x00" + target
+	}
+	return io.NopCloser(strings.NewReader(desc)), nil
+}
+
 func (g *LocalDriver) HeadRev(dir string) (string, error) {
 	if !g.WatchChanges {
 		idx := strings.LastIndex(dir, "vcs-")
@@ -78,8 +99,13 @@ func (g *LocalDriver) HeadRev(dir string) (string, error) {
 
 	// Hash all files in the directory
 	// TODO: implement logic from indexAllFiles to skip ignored files?
-	hash, err := dirhash.HashDir(dir, "", myHash)
-	return hash, err
+	files, err := dirhash.DirFiles(dir, "")
+	if err != nil {
+		return "", err
+	}
+	return myHash(files, func(name string) (io.ReadCloser, error) {
+		return openForHash(filepath.Join(dir, name))
+	})
 }
 
 func (g *LocalDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From 2cfcb7b59527faf4951a8776f143162fbe154ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 34/56] fix: merge vcs-config values as they are written

---
 config/config.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index c978c00..3382fc1 100644
--- a/config/config.go
+++ b/config/config.go
@@ -145,9 +145,15 @@ func mergeVCSConfigs(cfg *Config) error {
 		return nil
 	}
 
-	globalConfigVals := make(map[string]map[string]interface{}, globalConfigLen)
+	// The values are kept as they are written: decoding them would change
+	// large numbers.
+	globalConfigVals := make(map[string]map[string]json.RawMessage, globalConfigLen)
 	for vcs, configBytes := range cfg.VCSConfigMessages {
-		var configVals map[string]interface{}
+		if configBytes == nil {
+			continue // null
+		}
+
+		var configVals map[string]json.RawMessage
 		if err := json.Unmarshal(*configBytes, &configVals); err != nil {
 			return err
 		}
@@ -156,16 +162,15 @@ func mergeVCSConfigs(cfg *Config) error {
 	}
 
 	for _, repo := range cfg.Repos {
-		var globalVals map[string]interface{}
 		globalVals, valsExist := globalConfigVals[repo.Vcs]
 		if !valsExist {
 			continue
 		}
 
 		repoBytes := repo.VcsConfig()
-		var repoVals map[string]interface{}
+		var repoVals map[string]json.RawMessage
 		if len(repoBytes) == 0 {
-			repoVals = make(map[string]interface{}, len(globalVals))
+			repoVals = make(map[string]json.RawMessage, len(globalVals))
 		} else if err := json.Unmarshal(repoBytes, &repoVals); err != nil {
 			return err
 		}
-- 
2.43.0


From 374d959be8ecb0c1fa9fa673eea87ac7fdb1ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 35/56] fix: report errors of the search in the command-line
 client

---
 client/client.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index ef37bd3..4c59fc7 100644
--- a/client/client.go
+++ b/client/client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -114,7 +115,21 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(r)
+	// The API reports errors of the search itself with status 200.
+	body := struct {
+		*Response
+		Error string
+	}{Response: r}
+
+	if err := json.NewDecoder(res.Body).Decode(&body); err != nil {
+		return err
+	}
+
+	if body.Error != "" {
+		return errors.New(body.Error)
+	}
+
+	return nil
 }
 
 // Load the list of repositories from the API running on host.
-- 
2.43.0


From 969ac6de07246383166b6215957c3b504c22b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 36/56] fix: name a repository whose url has its only slash in
 front

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index 4c59fc7..771eaa3 100644
--- a/client/client.go
+++ b/client/client.go
@@ -46,6 +46,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
+	if ax == 0 {
+		return name
+	}
+
 	bx := strings.LastIndex(uri[:ax-1], "/")
 	if bx < 0 {
 		return name
-- 
2.43.0


From 1276cf8e104a054479b114ce6347eeaaeae12670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 37/56] fix: unmap an index that turns out to be damaged

---
 codesearch/index/read.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codesearch/index/read.go b/codesearch/index/read.go
index 3fc4a8a..280400e 100644
--- a/codesearch/index/read.go
+++ b/codesearch/index/read.go
@@ -96,6 +96,8 @@ const postEntrySize = 3 + 4 + 4
 func Open(file string) *Index {
   mm := mmap(file)
   if len(mm.d) < 4*4+len(trailerMagic) || string(mm.d[len(mm.d)-len(trailerMagic):]) != trailerMagic {
+    // a server that builds a new index instead must not keep the mapping
+    mm.close() //nolint
     corrupt(mm.f)
   }
   n := uint32(len(mm.d) - len(trailerMagic) - 5*4)
-- 
2.43.0


From 2c8dd8e2a3ed96a69df7a94b0ecf975a2c5e4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 38/56] fix: put paths into links to the code host as they are

---
 ui/assets/js/common.js | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index ebd2f0f..55b5b59 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -3,10 +3,9 @@ export function EscapeRegExp(regexp) {
 }
 
 export function ExpandVars(template, values) {
-    for (var name in values) {
-        template = template.replace('{' + name + '}', values[name]);
-    }
-    return template;
+    return template.replace(/\{([^{}]*)\}/g, function (v, name) {
+        return Object.prototype.hasOwnProperty.call(values, name) ? values[name] : v;
+    });
 };
 
 export function UrlParts(repo, path, line, rev) {
@@ -18,7 +17,7 @@ export function UrlParts(repo, path, line, rev) {
         path = path || '',
         port = '',
         filename = path.substring(path.lastIndexOf('/') + 1),
-        anchor = line ? ExpandVars(pattern.anchor, { line : line, filename : filename }) : '';
+        anchor = line ? ExpandVars(pattern.anchor, { line : line, filename : encodeURIComponent(filename) }) : '';
 
     // Determine if the URL passed is a GitHub wiki
     var wikiUrl = /\.wiki$/.exec(url);
@@ -65,6 +64,8 @@ export function UrlToRepo(repo, path, line, rev) {
     var urlParts = UrlParts(repo, path, line, rev),
         pattern = repo['url-pattern']
 
+    urlParts.path = urlParts.path.split('/').map(encodeURIComponent).join('/');
+
     // I'm sure there is a nicer React/jsx way to do this:
     return ExpandVars(pattern['base-url'], urlParts);
 }
-- 
2.43.0


From 49590f2d6f2583dce5ffa848a5c32ebd46788895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 39/56] fix: highlight the matches of a line, also of a pattern
 that matches nothing

---
 ui/assets/js/hound.js | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index fbbea52..b974c57 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -705,22 +705,20 @@ var ContentFor = function (line, regexp) {
         return EscapeHtml(line.Content);
     }
     var content = line.Content,
-        buffer = [];
-
-    while (true) {
-        regexp.lastIndex = 0;
-        var m = regexp.exec(content);
-        if (!m) {
-            buffer.push(EscapeHtml(content));
-            break;
+        buffer = [],
+        end = 0;
+
+    Array.from(content.matchAll(regexp)).forEach(function (m) {
+        // there is nothing to highlight in an empty match
+        if (m[0] === "") {
+            return;
         }
 
-        buffer.push(
-            EscapeHtml(content.substring(0, regexp.lastIndex - m[0].length))
-        );
+        buffer.push(EscapeHtml(content.substring(end, m.index)));
         buffer.push("<em>" + EscapeHtml(m[0]) + "</em>");
-        content = content.substring(regexp.lastIndex);
-    }
+        end = m.index + m[0].length;
+    });
+    buffer.push(EscapeHtml(content.substring(end)));
     return buffer.join("");
 };
 
-- 
2.43.0


From 6d73abce63daa3835fc6da2659415809e031c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 40/56] fix: show and highlight results by the pattern that was
 searched for

---
 ui/assets/js/common.js |  2 +-
 ui/assets/js/hound.js  | 37 ++++++++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/ui/assets/js/common.js b/ui/assets/js/common.js
index 55b5b59..2e64d23 100644
--- a/ui/assets/js/common.js
+++ b/ui/assets/js/common.js
@@ -1,5 +1,5 @@
 export function EscapeRegExp(regexp) {
-    return regexp.replace(/[-[\]{}()*+!<=:?.\/\\^$|#\s,]/g, '\\$&');
+    return regexp.replace(/[[\]{}()*+?.\/\\^$|]/g, '\\$&');
 }
 
 export function ExpandVars(template, values) {
diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index b974c57..51f2e6f 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -59,6 +59,27 @@ var ParamValueToBool = function (v) {
     return v == "fosho" || v == "true" || v == "1";
 };
 
+/**
+ * The pattern of a search as the regexp that highlights its matches or, for a
+ * pattern that is no regexp in JavaScript, null.
+ */
+var RegExpFromParams = function (params) {
+    var pattern = ParamValueToBool(params.literal)
+            ? EscapeRegExp(params.q)
+            : params.q,
+        flags = ParamValueToBool(params.i) ? "gsi" : "gs";
+    try {
+        return new RegExp(pattern, flags + "u");
+    } catch (e) {
+        // Not all of what the server accepts is allowed with that flag.
+    }
+    try {
+        return new RegExp(pattern, flags);
+    } catch (e) {
+        return null;
+    }
+};
+
 /**
  * The data model for the UI is responsible for conducting searches and managing
  * all results.
@@ -379,16 +400,6 @@ var SearchBar = React.createClass({
     submitQuery: function () {
         this.props.onSearchRequested(this.getParams());
     },
-    getRegExp: function () {
-        var regexp = this.refs.q.getDOMNode().value.trim();
-        if (this.refs.lsearch.getDOMNode().checked) {
-            regexp = EscapeRegExp(regexp);
-        }
-        return new RegExp(
-            regexp,
-            this.refs.icase.getDOMNode().checked ? "ig" : "g"
-        );
-    },
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
         // to have none.
@@ -701,7 +712,7 @@ EscapeHtml.e = document.createElement("div");
  * Produce html for a line using the regexp to highlight matches.
  */
 var ContentFor = function (line, regexp) {
-    if (!line.Match) {
+    if (!line.Match || !regexp) {
         return EscapeHtml(line.Content);
     }
     var content = line.Content,
@@ -1020,7 +1031,7 @@ var App = React.createClass({
 
             _this.refs.resultView.setState({
                 results: results,
-                regexp: _this.refs.searchBar.getRegExp(),
+                regexp: RegExpFromParams(model.params),
                 error: null,
             });
         });
@@ -1028,7 +1039,7 @@ var App = React.createClass({
         Model.didLoadMore.tap(function (model, repo, results) {
             _this.refs.resultView.setState({
                 results: results,
-                regexp: _this.refs.searchBar.getRegExp(),
+                regexp: RegExpFromParams(model.params),
                 error: null,
             });
         });
-- 
2.43.0


From 03aa7db18659a80a7b48abed1d012d46eb2e4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 41/56] fix: show no results for an empty query

---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 51f2e6f..35d1572 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -176,7 +176,7 @@ var Model = {
         if (params.q == "") {
             _this.results = [];
             _this.resultsByRepo = {};
-            _this.didSearch.raise(_this, _this.Results);
+            _this.didSearch.raise(_this, _this.results);
             return;
         }
 
-- 
2.43.0


From 7b806a3aae8891985c73dccb0de7820b7d4c831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 42/56] fix: do not show the results of an earlier search

---
 ui/assets/js/hound.js | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 35d1572..4c30467 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -185,6 +185,11 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                // Another search has begun in the meantime.
+                if (_this.params !== params) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
@@ -230,6 +235,10 @@ var Model = {
                 _this.didSearch.raise(_this, _this.results, _this.stats);
             },
             error: function (xhr, status, err) {
+                if (_this.params !== params) {
+                    return;
+                }
+
                 _this.didError.raise(this, "The server broke down");
             },
         });
-- 
2.43.0


From 6cdeddd4ad671df53b7398d0d60b1108f712dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 43/56] fix: load all of the remaining matches, and each of
 them once

---
 ui/assets/js/hound.js | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 4c30467..766f6a8 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -246,11 +246,18 @@ var Model = {
 
     LoadMore: function (repo) {
         var _this = this,
+            searched = this.params,
             results = this.resultsByRepo[repo],
             numLoaded = results.Matches.length,
             numNeeded = results.FilesWithMatch - numLoaded,
             numToLoad = Math.min(2000, numNeeded),
-            endAt = numNeeded == numToLoad ? "" : "" + numToLoad;
+            endAt =
+                numNeeded == numToLoad ? "" : "" + (numLoaded + numToLoad);
+
+        if (results.Loading) {
+            return;
+        }
+        results.Loading = true;
 
         _this.willLoadMore.raise(this, repo, numLoaded, numNeeded, numToLoad);
 
@@ -264,16 +271,30 @@ var Model = {
             data: params,
             type: "json",
             success: function (data) {
+                results.Loading = false;
+
+                // Another search has begun in the meantime.
+                if (_this.params !== searched) {
+                    return;
+                }
+
                 if (data.Error) {
                     _this.didError.raise(_this, data.Error);
                     return;
                 }
 
                 var result = data.Results[repo];
-                results.Matches = results.Matches.concat(result.Matches);
+                if (result) {
+                    results.Matches = results.Matches.concat(result.Matches);
+                }
                 _this.didLoadMore.raise(_this, repo, _this.results);
             },
             error: function (xhr, status, err) {
+                results.Loading = false;
+                if (_this.params !== searched) {
+                    return;
+                }
+
                 _this.didError.raise(this, "The server broke down");
             },
         });
-- 
2.43.0


From d3f9ae26956562813940b5bf2d34f293daf0ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 44/56] fix: keep any repository name in the address of a
 result

---
 ui/assets/js/hound.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 766f6a8..7d6ce90 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -1105,7 +1105,7 @@ var App = React.createClass({
             "&excludeFiles=" +
             encodeURIComponent(params.excludeFiles) +
             "&repos=" +
-            params.repos;
+            encodeURIComponent(params.repos);
         history.pushState({ path: path }, "", path);
     },
     render: function () {
-- 
2.43.0


From 2697c0d551d655af6dd4f9ca7059dbb5c2c0f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 45/56] fix: list the excluded files of the repository selected
 last

---
 ui/assets/js/excluded_files.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ui/assets/js/excluded_files.js b/ui/assets/js/excluded_files.js
index 1a38f9a..fa5b41a 100644
--- a/ui/assets/js/excluded_files.js
+++ b/ui/assets/js/excluded_files.js
@@ -99,15 +99,20 @@ var FilterableExcludedFiles = React.createClass({
 
   onRepoClick: function(repo) {
     var _this = this;
+    var selected = this.state.repos[repo];
     _this.setState({
       searching: true,
-      repo: this.state.repos[repo],
+      repo: selected,
     });
     reqwest({
       url: 'api/v1/excludes',
       data: {repo: repo},
       type: 'json',
       success: function(data) {
+        // Another repository has been selected in the meantime.
+        if (_this.state.repo !== selected) {
+          return;
+        }
         _this.setState({ files: data, searching: false });
       },
       error: function(xhr, status, err) {
-- 
2.43.0


From e2b7005ac392489b6ca73c48019d7bb157a6fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 46/56] fix: reuse an intact index even if a damaged one is
 found first

---
 searcher/searcher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index f7f96fa..c0ed053 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -493,7 +493,11 @@ func newSearcher(
 	}
 
 	var idx *index.Index
-	if ref := refs.claim(repo.Url, rev, opt); ref != nil {
+	for idx == nil {
+		ref := refs.claim(repo.Url, rev, opt)
+		if ref == nil {
+			break
+		}
 		if idx, err = index.Open(ref.Dir()); err != nil {
 			log.Printf("failed to open index, building a new one (%s): %s", name, err)
 			if err := ref.Remove(); err != nil {
-- 
2.43.0


From 2db74fcd721b9e81142037f7168c2e9e6b98f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 47/56] fix: name the repository that failed to start in the
 log

---
 searcher/searcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index c0ed053..9505e34 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -340,7 +340,7 @@ func MakeAll(cfg *config.Config) (map[string]*Searcher, map[string]error, error)
 	for i := 0; i < n; i++ {
 		r := <-resultCh
 		if r.err != nil {
-			log.Print(r.err)
+			log.Printf("failed to start searcher for %s: %s", r.name, r.err)
 			errs[r.name] = r.err
 			continue
 		}
-- 
2.43.0


From 952694bdf9347ccbc904333e429ce1b8483e562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 48/56] fix: a linguist-generated attribute without a value
 marks a file, too

---
 vcs/git.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index 3c76be0..fce7d05 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -200,7 +200,8 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 	tokens := bytes.Split(out, []byte{0})
 
 	for i := 2; i < len(tokens); i+=3 {
-		if string(tokens[i]) == "true" && string(tokens[i-1]) == autoGeneratedAttribute {
+		info := string(tokens[i])
+		if (info == "set" || info == "true") && string(tokens[i-1]) == autoGeneratedAttribute {
 			files = append(files, string(tokens[i-2]))
 		}
 	}
-- 
2.43.0


From 8d7089e3c2ec16756adc9224cab6dd90d8160c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 49/56] fix: keep the OpenSearch description well-formed for
 every Host header

---
 ui/assets/open_search.tpl.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/open_search.tpl.xml b/ui/assets/open_search.tpl.xml
index 9fc569f..976add0 100644
--- a/ui/assets/open_search.tpl.xml
+++ b/ui/assets/open_search.tpl.xml
@@ -6,5 +6,5 @@
     <Tags>Hound</Tags>
     <Url type="text/html"
          method="get"
-         template="http://{{ .Host }}/?q={searchTerms}" />
+         template="http://{{ html .Host }}/?q={searchTerms}" />
 </OpenSearchDescription>
-- 
2.43.0


From 1d24d68396e722bba7ab89e16cb06af1057fb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 50/56] fix: load no more files at once than announced

The part after the colon is the number of files, not the last one: this takes back
what the repair of duplicate results changed there needlessly.
---
 ui/assets/js/hound.js | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 7d6ce90..6a9c2cc 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -251,8 +251,7 @@ var Model = {
             numLoaded = results.Matches.length,
             numNeeded = results.FilesWithMatch - numLoaded,
             numToLoad = Math.min(2000, numNeeded),
-            endAt =
-                numNeeded == numToLoad ? "" : "" + (numLoaded + numToLoad);
+            endAt = numNeeded == numToLoad ? "" : "" + numToLoad;
 
         if (results.Loading) {
             return;
-- 
2.43.0


From 3a9ee239ef3e3a4161e25c86e40bb77ad3e56249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 51/56] fix: do not leave git ls-files behind if git check-attr
 fails

---
 vcs/git.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index fce7d05..3f85433 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -193,6 +193,8 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 
 	if err != nil {
 		log.Printf("Error occured when running git check-attr in %s: %s.", dir, err)
+		pipe.Close() // what git ls-files still has to say is not read
+		filesCmd.Wait() //nolint
 		return files
 	}
 
-- 
2.43.0


From 7052d75d2b93a70694e503cc1be46634379d8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 52/56] fix: let repositories named like members of every
 object be selected

---
 ui/assets/js/hound.js | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 6a9c2cc..1864215 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -101,9 +101,11 @@ var Model = {
 
     ValidRepos: function (repos) {
         var all = this.repos,
-            seen = {};
+            // no names are there from the start, like "constructor" in {}
+            seen = Object.create(null);
         return repos.filter(function (repo) {
-            var valid = all[repo] && !seen[repo];
+            var valid =
+                Object.prototype.hasOwnProperty.call(all, repo) && !seen[repo];
             seen[repo] = true;
             return valid;
         });
@@ -503,7 +505,7 @@ var SearchBar = React.createClass({
     render: function () {
         var repoCount = this.state.allRepos.length,
             repoOptions = [],
-            selected = {};
+            selected = Object.create(null);
 
         this.state.repos.forEach(function (repo) {
             selected[repo] = true;
-- 
2.43.0


From 644c542f8b7d001800d229bd6b51bc8e9af0e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 53/56] fix: bound the number of states a search keeps

---
 codesearch/regexp/match.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/codesearch/regexp/match.go b/codesearch/regexp/match.go
index 480f910..0f2470a 100644
--- a/codesearch/regexp/match.go
+++ b/codesearch/regexp/match.go
@@ -277,6 +277,28 @@ func (m *matcher) cache(z *nstate) *dstate {
 	return d
 }
 
+// The number of states after which the cache starts over. Patterns such as
+// e.{30}x have a state of their own for nearly every position of a text.
+const maxStates = 4096
+
+// step returns the state we're in after reading the byte c in d, and d, which
+// is another state of the same meaning if the cache has been emptied.
+func (m *matcher) step(d *dstate, c byte) (*dstate, *dstate) {
+	if len(m.dstate) >= maxStates {
+		m.dstate = make(map[string]*dstate)
+		m.start = m.renew(m.start)
+		m.startLine = m.renew(m.startLine)
+		d = m.renew(d)
+	}
+	return m.computeNext(d, int(c)), d
+}
+
+// renew returns the state d of an emptied cache.
+func (m *matcher) renew(d *dstate) *dstate {
+	m.z1.dec(d.enc)
+	return m.cache(&m.z1)
+}
+
 func (m *matcher) match(b []byte, beginText, endText bool) (end int) {
 	//	fmt.Printf("%v\n", m.prog)
 
@@ -295,7 +317,7 @@ func (m *matcher) match(b []byte, beginText, endText bool) (end int) {
 				}
 				d1 = m.startLine
 			} else {
-				d1 = m.computeNext(d, int(c))
+				d1, d = m.step(d, c)
 			}
 			d.next[c] = d1
 		}
@@ -324,7 +346,7 @@ func (m *matcher) matchString(b string, beginText, endText bool) (end int) {
 				}
 				d1 = m.startLine
 			} else {
-				d1 = m.computeNext(d, int(c))
+				d1, d = m.step(d, c)
 			}
 			d.next[c] = d1
 		}
-- 
2.43.0


From 13be1407c3088de0643636943f984b34c3f8be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:43 +0000
Subject: [PATCH 54/56] fix: search in the repositories that the form shows

---
 ui/assets/js/hound.js | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 1864215..0fe35dc 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -351,6 +351,13 @@ var SearchBar = React.createClass({
         var _this = this;
         Model.didLoadRepos.tap(function (model, repos) {
             _this.setState({ allRepos: Object.keys(repos) });
+
+            // If all repos are selected, don't show any selected.
+            if (
+                model.ValidRepos(_this.state.repos).length == model.RepoCount()
+            ) {
+                _this.setState({ repos: [] });
+            }
         });
     },
 
@@ -428,13 +435,23 @@ var SearchBar = React.createClass({
     excludeFilesGotFocus: function (event) {
         this.showAdvanced();
     },
+    reposGotChanged: function (event) {
+        var repos = [],
+            options = event.target.options;
+        for (var i = 0; i < options.length; i++) {
+            if (options[i].selected) {
+                repos.push(options[i].value);
+            }
+        }
+        this.setState({ repos: repos });
+    },
     submitQuery: function () {
         this.props.onSearchRequested(this.getParams());
     },
     getParams: function () {
         // selecting all repos is the same as not selecting any, so normalize the url
         // to have none.
-        var repos = Model.ValidRepos(this.refs.repos.state.value);
+        var repos = Model.ValidRepos(this.state.repos);
         if (repos.length == Model.RepoCount()) {
             repos = [];
         }
@@ -460,6 +477,9 @@ var SearchBar = React.createClass({
         literal.checked = ParamValueToBool(params.literal);
         files.value = params.files;
         excludeFiles.value = params.excludeFiles;
+        this.setState({
+            repos: params.repos == "" ? [] : params.repos.split(","),
+        });
     },
     hasAdvancedValues: function () {
         return (
@@ -633,6 +653,8 @@ var SearchBar = React.createClass({
                                     multiple={true}
                                     size={Math.min(16, repoCount)}
                                     ref="repos"
+                                    value={this.state.repos}
+                                    onChange={this.reposGotChanged}
                                 >
                                     {repoOptions}
                                 </select>
@@ -1032,8 +1054,7 @@ var ResultView = React.createClass({
 
 var App = React.createClass({
     componentWillMount: function () {
-        var params = ParamsFromUrl(),
-            repos = params.repos == "" ? [] : params.repos.split(",");
+        var params = ParamsFromUrl();
 
         this.setState({
             q: params.q,
@@ -1041,23 +1062,14 @@ var App = React.createClass({
             literal: params.literal,
             files: params.files,
             excludeFiles: params.excludeFiles,
-            repos: repos,
+            repos: params.repos,
         });
 
         var _this = this;
-        Model.didLoadRepos.tap(function (model, repos) {
-            // If all repos are selected, don't show any selected.
-            if (
-                model.ValidRepos(_this.state.repos).length == model.RepoCount()
-            ) {
-                _this.setState({ repos: [] });
-            }
-        });
 
         Model.didSearch.tap(function (model, results, stats) {
             _this.refs.searchBar.setState({
                 stats: stats,
-                repos: repos,
             });
 
             _this.refs.resultView.setState({
-- 
2.43.0


From 05e663e72d680887e5c9ad88c7c7ffebfc95ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 55/56] fix: fall back to the default ref if the remote has no
 default branch

---
 vcs/git.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vcs/git.go b/vcs/git.go
index 3f85433..7998234 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -235,8 +235,9 @@ func (d *headBranchDetector) detectRef(dir string) string {
 		return ""
 	}
 
+	// git tells (unknown) if the HEAD of the remote is detached or unborn
 	matches := headBranchRegexp.FindStringSubmatch(output)
-	if len(matches) != 2 {
+	if len(matches) != 2 || matches[1] == "(unknown)" {
 		log.Printf(
 			"could not determine target ref in %s. Will fall back to default ref %s",
 			dir,
-- 
2.43.0


From fb96ffa7b446c92a20a009626fa6713caf2e64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 56/56] fix: no error of an earlier search while a search is
 under way

---
 ui/assets/js/hound.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ui/assets/js/hound.js b/ui/assets/js/hound.js
index 0fe35dc..a6a5235 100644
--- a/ui/assets/js/hound.js
+++ b/ui/assets/js/hound.js
@@ -962,6 +962,7 @@ var ResultView = React.createClass({
         Model.willSearch.tap(function (model, params) {
             _this.setState({
                 results: null,
+                error: null,
                 query: params.q,
             });
         });
-- 
2.43.0

