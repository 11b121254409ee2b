From 35e80e80644bb0b4ae04ca41ce63b211eba4ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 01/70] fix: stream: report a last segment shorter than
 declared instead of a clean EOF

---
 stream/multi_read_at_closer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index af3e5ca..738dc33 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -163,7 +163,8 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > r.idx:
+	case err == io.EOF && (len(r.r)-1 > r.idx || int64(n) < rem):
+		// Not the end of the whole: the next read reports a reader that ended early.
 		err = nil
 	}
 
@@ -248,7 +249,8 @@ func (r *multiReadAtSeekCloser) readAt(p []byte, off int64) (n int, err error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > i:
+	case err == io.EOF && (len(r.r)-1 > i || int64(n) < rem):
+		// Not the end of the whole: the next read reports a reader that ended early.
 		err = nil
 	}
 	return n, err
-- 
2.43.0


From 393231be618d7b8fdd5a6dfeeeb9708d0dd057e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 02/70] fix: httprange: redact nested url errors and URL parse
 reasons

---
 stream/httprange/redact.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 207ea62..7632cf8 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -10,6 +10,10 @@ import (
 // can still carry a credential.
 const redactedURLPlaceholder = "[redacted url]"
 
+// errMalformedURL stands in for a reason for a URL not to parse that may
+// quote parts of the URL.
+var errMalformedURL = errors.New("malformed url")
+
 // redactURL renders u as scheme, host and path only, dropping userinfo,
 // query and fragment.
 func redactURL(u *url.URL) string {
@@ -35,17 +39,28 @@ func redactRawURL(raw string) string {
 // tree with its redacted form, so that presigned tokens, basic-auth
 // passwords and the like never reach error text.
 //
-// The underlying Err is carried over untouched, keeping [errors.Is] and
-// [errors.AsType] working through the result. Any error not built around a
+// The underlying Err is carried over, keeping [errors.Is] and
+// [errors.AsType] working through the result, except that a nested
+// [url.Error] is redacted as well and a reason for a URL not to parse that
+// may quote the URL is replaced. Any error not built around a
 // [url.Error] is returned as is.
 func redactURLError(err error) error {
 	ue, ok := errors.AsType[*url.Error](err)
 	if !ok {
 		return err
 	}
+	inner := redactURLError(ue.Err)
+	if ue.Op == "parse" {
+		switch inner.(type) {
+		case url.EscapeError, url.InvalidHostError:
+			// these quote no more than the offending character
+		default:
+			inner = errMalformedURL
+		}
+	}
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redactRawURL(ue.URL),
-		Err: ue.Err,
+		Err: inner,
 	}
 }
-- 
2.43.0


From 30649c5102d27b8a75209d0c41188abcb735dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 03/70] fix: fileserver: redact nested, unparsable and
 parse-reason URLs in errors

---
 stream/fileserver/client.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6c90fc5..947e88a 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -117,9 +117,11 @@ func (c *HTTPClient) applyHeaders(req *http.Request) {
 //
 // Guarantee: if err wraps a *url.Error, the returned error's message contains
 // only the scheme, host, and path of the original URL — userinfo, query, and
-// fragment are stripped. The underlying Err field is preserved unchanged so
-// that errors.Is/As chains (e.g. context.Canceled, net errors, fs.ErrNotExist)
-// continue to work normally. If err is not (or does not wrap) a *url.Error it
+// fragment are stripped, and a URL that does not parse is not shown at all.
+// The underlying Err field is preserved so that errors.Is/As chains (e.g.
+// context.Canceled, net errors, fs.ErrNotExist) continue to work normally,
+// except that a nested *url.Error is redacted too and a reason for a URL not
+// to parse that may quote the URL is replaced. If err is not (or does not wrap) a *url.Error it
 // is returned as-is.
 func redactURLError(err error) error {
 	var ue *url.Error
@@ -127,17 +129,26 @@ func redactURLError(err error) error {
 		return err
 	}
 	// Parse and redact the URL embedded in the *url.Error.
-	redacted := ue.URL
+	redacted := "[redacted url]"
 	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
 		u.User = nil
 		u.RawQuery = ""
 		u.Fragment = ""
 		redacted = u.String()
 	}
+	inner := redactURLError(ue.Err)
+	if ue.Op == "parse" {
+		switch inner.(type) {
+		case url.EscapeError, url.InvalidHostError:
+			// these quote no more than the offending character
+		default:
+			inner = errors.New("malformed url")
+		}
+	}
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redacted,
-		Err: ue.Err,
+		Err: inner,
 	}
 }
 
-- 
2.43.0


From d37bbe6eea448eaa19b30384609db7b445a0f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 04/70] fix: fileserver: refuse a source that ends within the
 last chunk

---
 stream/fileserver/chunk.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index ab7d168..98f0085 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -270,10 +270,9 @@ func (s *ChunkedSink) Append(
 				"ChunkedSink Append chunk %d: spool: %w", i, err,
 			)
 		}
-		// For the last chunk a short read (written < expected) is valid only
-		// if the source is exhausted. If this is not the last chunk and we
-		// got fewer bytes, the reader was truncated.
-		if written < expected && i < nChunks-1 {
+		// Every chunk, the last one included, has a known size: fewer bytes
+		// mean that the reader was truncated.
+		if written < expected {
 			cleanup()
 			return fmt.Errorf(
 				"ChunkedSink Append chunk %d: short read: got %d, want %d",
-- 
2.43.0


From 79f5297717af2a40855722df24ed0981cd7c7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 05/70] fix: fileserver: send Content-Length 0 for an empty Put

---
 stream/fileserver/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 947e88a..74a6bfc 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -283,6 +283,11 @@ func (c *HTTPClient) Put(
 		)
 	}
 	req.ContentLength = size
+	if size == 0 {
+		// net/http takes 0 with a body for an unknown length and would send
+		// the request chunked, without Content-Length.
+		req.Body = http.NoBody
+	}
 	c.applyHeaders(req)
 
 	resp, err := c.client().Do(req)
-- 
2.43.0


From 5b99f20f593caae5e8226f4e9b8c7dc79b3f28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 06/70] fix: synthfs: refuse Stat, Chmod, Chown and Seek
 through a closed handle

---
 vroot/synthfs/handle.go     |  9 ++++++++
 vroot/synthfs/handle_dir.go | 46 +++++++++++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a5a2e68..a12d32a 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -138,6 +138,9 @@ func (h *fileHandle) Sync() error {
 }
 
 func (h *fileHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	s := h.node.toStat()
@@ -150,6 +153,9 @@ func (h *fileHandle) Stat() (fs.FileInfo, error) {
 }
 
 func (h *fileHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -157,6 +163,9 @@ func (h *fileHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *fileHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index cb8da4a..9d277a3 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -29,7 +29,6 @@ var _ vroot.File = (*dirHandle)(nil)
 
 func (h *dirHandle) Name() string { return h.name }
 func (h *dirHandle) Fd() uintptr  { return ^uintptr(0) }
-func (h *dirHandle) Sync() error  { return nil }
 
 func (h *dirHandle) Close() error {
 	h.mu.Lock()
@@ -46,34 +45,58 @@ func (h *dirHandle) Close() error {
 	return nil
 }
 
+func (h *dirHandle) isClosed() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	return h.closed
+}
+
+// refuse returns err wrapped for op, or [fs.ErrClosed] once h is closed.
+func (h *dirHandle) refuse(op string, err error) error {
+	if h.isClosed() {
+		err = fs.ErrClosed
+	}
+	return fsutil.WrapPathErr(op, h.name, err)
+}
+
+func (h *dirHandle) Sync() error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("sync", h.name, fs.ErrClosed)
+	}
+	return nil
+}
+
 func (h *dirHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	return h.node.toStat(), nil
 }
 
 func (h *dirHandle) Read([]byte) (int, error) {
-	return 0, fsutil.WrapPathErr("read", h.name, syscall.EISDIR)
+	return 0, h.refuse("read", syscall.EISDIR)
 }
 
 func (h *dirHandle) ReadAt([]byte, int64) (int, error) {
-	return 0, fsutil.WrapPathErr("readat", h.name, syscall.EISDIR)
+	return 0, h.refuse("readat", syscall.EISDIR)
 }
 
 func (h *dirHandle) Write([]byte) (int, error) {
-	return 0, fsutil.WrapPathErr("write", h.name, syscall.EISDIR)
+	return 0, h.refuse("write", syscall.EISDIR)
 }
 
 func (h *dirHandle) WriteAt([]byte, int64) (int, error) {
-	return 0, fsutil.WrapPathErr("writeat", h.name, syscall.EISDIR)
+	return 0, h.refuse("writeat", syscall.EISDIR)
 }
 
 func (h *dirHandle) WriteString(string) (int, error) {
-	return 0, fsutil.WrapPathErr("write", h.name, syscall.EISDIR)
+	return 0, h.refuse("write", syscall.EISDIR)
 }
 
 func (h *dirHandle) Truncate(int64) error {
-	return fsutil.WrapPathErr("truncate", h.name, syscall.EISDIR)
+	return h.refuse("truncate", syscall.EISDIR)
 }
 
 // Seek mimics *os.File on a directory: only no-op rewinds/positioning to end
@@ -81,6 +104,9 @@ func (h *dirHandle) Truncate(int64) error {
 func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
+	if h.closed {
+		return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset < 0 {
@@ -185,6 +211,9 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 }
 
 func (h *dirHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -192,6 +221,9 @@ func (h *dirHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *dirHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
-- 
2.43.0


From 2e0340afa441129c2727ffa2d972672e77973d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 07/70] fix: synthfs: close a hard-linked view with its last
 name only

---
 vroot/synthfs/add.go    |  6 +++---
 vroot/synthfs/link.go   |  8 +++++++-
 vroot/synthfs/node.go   | 15 +++++++++++++++
 vroot/synthfs/remove.go |  4 ++--
 vroot/synthfs/rename.go |  2 +-
 5 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 703f06d..30676a7 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -66,7 +66,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 		if existingNode != nil {
 			parent.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlinked()
 			}
 		}
 		parent.addEntry(base, &file{
@@ -186,7 +186,7 @@ func (r *Root) addFSWalk(
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlinked()
 			}
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
@@ -216,7 +216,7 @@ func (r *Root) addFSWalk(
 		if existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlinked()
 			}
 		}
 		dst.addEntry(base, &file{
diff --git a/vroot/synthfs/link.go b/vroot/synthfs/link.go
index 482ec9f..088668a 100644
--- a/vroot/synthfs/link.go
+++ b/vroot/synthfs/link.go
@@ -52,6 +52,11 @@ func (r *Root) Link(oldname, newname string) error {
 	}
 	// Hard link: share the same FileView so writes through either name reflect
 	// on the other. Mode/uid/gid are copied at link time.
+	if srcFile.links == nil {
+		srcFile.links = new(int)
+		*srcFile.links = 1
+	}
+	*srcFile.links++
 	parent.addEntry(base, &file{
 		metadata: metadata{
 			name:    base,
@@ -60,7 +65,8 @@ func (r *Root) Link(oldname, newname string) error {
 			uid:     srcFile.uid,
 			gid:     srcFile.gid,
 		},
-		view: srcFile.view,
+		view:  srcFile.view,
+		links: srcFile.links,
 	})
 	return nil
 }
diff --git a/vroot/synthfs/node.go b/vroot/synthfs/node.go
index 94f088e..25767de 100644
--- a/vroot/synthfs/node.go
+++ b/vroot/synthfs/node.go
@@ -57,6 +57,21 @@ type dir struct {
 type file struct {
 	metadata
 	view FileView
+	// links counts the names sharing view once [Root.Link] has made more than
+	// one; nil means this is the only name.
+	links *int
+}
+
+// unlinked is called when f is removed from the tree. The view is closed with
+// the last name referring to it. Caller must hold state.mu (write lock).
+func (f *file) unlinked() {
+	if f.links != nil {
+		*f.links--
+		if *f.links > 0 {
+			return
+		}
+	}
+	_ = f.view.Close()
 }
 
 type symlink struct {
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 328749f..056d9e4 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -25,7 +25,7 @@ func (r *Root) Remove(name string) error {
 		}
 		parent.removeEntry(base)
 		if f, ok := target.(*file); ok {
-			_ = f.view.Close()
+			f.unlinked()
 		}
 		return nil
 	})
@@ -77,6 +77,6 @@ func (r *Root) removeSubtree(n node) {
 			delete(nd.index, k)
 		}
 	case *file:
-		_ = nd.view.Close()
+		nd.unlinked()
 	}
 }
diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index cfc8774..187cad0 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -33,7 +33,7 @@ func (r *Root) Rename(oldname, newname string) error {
 		}
 		newParent.removeEntry(newBase)
 		if f, ok := existing.(*file); ok {
-			_ = f.view.Close()
+			f.unlinked()
 		}
 	}
 
-- 
2.43.0


From 1aeb724b7d02caecdcf4d26f55bad1f7fa46cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 08/70] fix: synthfs: rename refuses directory cycles and mixed
 kinds, keeps names of one file

---
 vroot/synthfs/rename.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index 187cad0..5849051 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -3,6 +3,7 @@ package synthfs
 import (
 	"errors"
 	"io/fs"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -25,11 +26,35 @@ func (r *Root) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, errors.Unwrap(err))
 	}
+	targetDir, targetIsDir := target.(*dir)
+	if targetIsDir {
+		for d := newParent; d != nil; d = d.parent {
+			if d == targetDir {
+				// a directory can't move into itself
+				return fsutil.WrapLinkErr("rename", oldname, newname, fs.ErrInvalid)
+			}
+		}
+	}
 	if existing := newParent.lookup(newBase); existing != nil {
-		// POSIX rename replaces; emulate that for files. Refuse to overwrite
-		// a non-empty directory to keep the operation safe under any platform.
-		if d, ok := existing.(*dir); ok && d.ordered.Len() > 0 {
-			return fsutil.WrapLinkErr("rename", oldname, newname, errdef.ENOTEMPTY)
+		// POSIX rename replaces; emulate that for files. As *os.Root does,
+		// refuse to replace a directory.
+		if d, ok := existing.(*dir); ok {
+			if d.ordered.Len() > 0 {
+				return fsutil.WrapLinkErr("rename", oldname, newname, errdef.ENOTEMPTY)
+			}
+			return fsutil.WrapLinkErr("rename", oldname, newname, fs.ErrExist)
+		}
+		if targetIsDir {
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.ENOTDIR)
+		}
+		if existing == target {
+			return nil
+		}
+		if a, ok := existing.(*file); ok {
+			// Two names of one file: POSIX rename leaves both.
+			if b, ok := target.(*file); ok && a.links != nil && a.links == b.links {
+				return nil
+			}
 		}
 		newParent.removeEntry(newBase)
 		if f, ok := existing.(*file); ok {
@@ -39,8 +64,8 @@ func (r *Root) Rename(oldname, newname string) error {
 
 	oldParent.removeEntry(oldBase)
 	target.meta().name = newBase
-	if d, ok := target.(*dir); ok {
-		d.parent = newParent
+	if targetIsDir {
+		targetDir.parent = newParent
 	}
 	newParent.addEntry(newBase, target)
 	return nil
-- 
2.43.0


From f892ed8c2bb27f6f055b7773601262dd7a8c5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 09/70] fix: synthfs: Link links a symbolic link itself

---
 vroot/synthfs/link.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vroot/synthfs/link.go b/vroot/synthfs/link.go
index 088668a..8f8fafa 100644
--- a/vroot/synthfs/link.go
+++ b/vroot/synthfs/link.go
@@ -34,12 +34,12 @@ func (r *Root) Link(oldname, newname string) error {
 	r.st.mu.Lock()
 	defer r.st.mu.Unlock()
 
-	srcRes, err := r.findNode(oldname, true, "link")
+	// As *os.Root does, link a symlink itself and not its target.
+	srcRes, err := r.findNode(oldname, false, "link")
 	if err != nil {
 		return fsutil.WrapLinkErr("link", oldname, newname, errors.Unwrap(err))
 	}
-	srcFile, ok := srcRes.node.(*file)
-	if !ok {
+	if _, ok := srcRes.node.(*dir); ok {
 		return fsutil.WrapLinkErr("link", oldname, newname, os.ErrInvalid)
 	}
 
@@ -50,6 +50,16 @@ func (r *Root) Link(oldname, newname string) error {
 	if parent.lookup(base) != nil {
 		return fsutil.WrapLinkErr("link", oldname, newname, fs.ErrExist)
 	}
+	if sym, ok := srcRes.node.(*symlink); ok {
+		linked := &symlink{metadata: sym.metadata, target: sym.target}
+		linked.name = base
+		parent.addEntry(base, linked)
+		return nil
+	}
+	srcFile, ok := srcRes.node.(*file)
+	if !ok {
+		return fsutil.WrapLinkErr("link", oldname, newname, errInternalNodeType)
+	}
 	// Hard link: share the same FileView so writes through either name reflect
 	// on the other. Mode/uid/gid are copied at link time.
 	if srcFile.links == nil {
-- 
2.43.0


From 0ab8f9a053f69d703ce384ad3be06c77990ac398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 10/70] fix: synthfs: RemoveAll below a missing parent
 succeeds, MkdirAll over a file is ENOTDIR

---
 vroot/synthfs/mkdir.go  | 4 ++--
 vroot/synthfs/remove.go | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/mkdir.go b/vroot/synthfs/mkdir.go
index c9a0f68..73f28e4 100644
--- a/vroot/synthfs/mkdir.go
+++ b/vroot/synthfs/mkdir.go
@@ -4,8 +4,8 @@ import (
 	"errors"
 	"io/fs"
 	"path/filepath"
+	"syscall"
 
-	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 	"github.com/ngicks/go-fsys-helper/vroot/internal/paths"
 )
 
@@ -36,7 +36,7 @@ func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
 				return lerr
 			}
 			if _, ok := res.node.(*dir); !ok {
-				return toPathErr("mkdir", p, errdef.ENOTEMPTY)
+				return toPathErr("mkdir", p, syscall.ENOTDIR)
 			}
 		}
 	}
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 056d9e4..90efec0 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"syscall"
 
@@ -51,6 +52,10 @@ func (r *Root) removeAllLocked(name string) error {
 		return toPathErr("RemoveAll", ".", syscall.EINVAL)
 	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "RemoveAll")
+	if errors.Is(err, fs.ErrNotExist) {
+		// Mirror os.RemoveAll: so is a missing parent.
+		return nil
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 65c810e7c499cb0c11d45a5fae3ba99aa43541ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 11/70] fix: synthfs: OpenFile with O_CREATE follows a dangling
 symlink

---
 vroot/synthfs/open.go | 44 ++++++++++++++++++++++---------------------
 vroot/synthfs/tree.go | 10 ++++++++--
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e9e5b72..9eefaff 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"os"
 
@@ -21,35 +22,36 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 	r.st.mu.Lock()
 	defer r.st.mu.Unlock()
 
-	if flag&os.O_CREATE != 0 {
+	if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
 		parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "open")
 		if err != nil {
 			return nil, err
 		}
-		if existing := parent.lookup(base); existing != nil {
-			if flag&os.O_EXCL != 0 {
-				return nil, toPathErr("open", name, fs.ErrExist)
-			}
-			// Fall through to opening the existing entry below.
-		} else {
-			view, err := r.st.opt.allocator.Allocate(base, perm&^r.st.opt.umask)
-			if err != nil {
-				return nil, toPathErr("open", name, err)
-			}
-			nf := &file{
-				metadata: metadata{
-					name:    base,
-					mode:    perm &^ r.st.opt.umask,
-					modTime: r.st.opt.clock.Now(),
-				},
-				view: view,
-			}
-			parent.addEntry(base, nf)
-			return r.openFileNode(nf, name, flag)
+		if parent.lookup(base) != nil {
+			return nil, toPathErr("open", name, fs.ErrExist)
 		}
 	}
 
 	res, err := r.findNode(name, true, "open")
+	if flag&os.O_CREATE != 0 && res.node == nil && res.parent != nil &&
+		errors.Is(err, fs.ErrNotExist) {
+		// The last component is missing, be it that of name or of the dangling
+		// symlink it leads to.
+		view, err := r.st.opt.allocator.Allocate(res.base, perm&^r.st.opt.umask)
+		if err != nil {
+			return nil, toPathErr("open", name, err)
+		}
+		nf := &file{
+			metadata: metadata{
+				name:    res.base,
+				mode:    perm &^ r.st.opt.umask,
+				modTime: r.st.opt.clock.Now(),
+			},
+			view: view,
+		}
+		res.parent.addEntry(res.base, nf)
+		return r.openFileNode(nf, name, flag)
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index d979a63..825277a 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -41,7 +41,9 @@ func normalize(name string) (string, error) {
 
 // resolveResult is what [state.resolve] returns: the resolved node plus the
 // dir directly containing it. parent is nil only when the resolved node is the
-// confinement-boundary dir itself (i.e. name resolved to ".").
+// confinement-boundary dir itself (i.e. name resolved to "."). Along with
+// [fs.ErrNotExist], parent and base tell where the last component is missing,
+// and are zero if it was an earlier one.
 type resolveResult struct {
 	node   node
 	parent *dir
@@ -94,7 +96,11 @@ func (s *state) resolve(
 
 		child := cur.lookup(comp)
 		if child == nil {
-			return resolveResult{}, fsutil.WrapPathErr(op, name, fs.ErrNotExist)
+			res := resolveResult{}
+			if rest == "" {
+				res.parent, res.base = cur, comp
+			}
+			return res, fsutil.WrapPathErr(op, name, fs.ErrNotExist)
 		}
 
 		isLast := rest == ""
-- 
2.43.0


From f00b2eeeaaefe8c0ee3e170e1a060c84f2fd28ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 12/70] fix: synthfs: list live sizes from a snapshot that
 survives changes during the scan

---
 vroot/synthfs/handle_dir.go | 69 +++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index 9d277a3..afd249d 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"path/filepath"
 	"sync"
 	"syscall"
 
@@ -22,7 +21,16 @@ type dirHandle struct {
 
 	mu     sync.Mutex
 	closed bool
-	cursor int
+	// entries are those found by the first read after open or rewind, so that
+	// changes made to the dir during the scan do not shift the cursor.
+	entries []dirHandleEntry
+	loaded  bool
+	cursor  int
+}
+
+type dirHandleEntry struct {
+	name string
+	node node
 }
 
 var _ vroot.File = (*dirHandle)(nil)
@@ -117,6 +125,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 			)
 		}
 		h.cursor = 0
+		h.entries, h.loaded = nil, false
 	case io.SeekCurrent:
 		if offset != 0 {
 			return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrInvalid)
@@ -130,7 +139,8 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 			)
 		}
 		h.st.mu.RLock()
-		h.cursor = h.node.ordered.Len()
+		h.load()
+		h.cursor = len(h.entries)
 		h.st.mu.RUnlock()
 	default:
 		return 0, fsutil.WrapPathErr(
@@ -142,28 +152,51 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	return 0, nil
 }
 
+// load snapshots the dir's entries unless they are already. Caller holds h.mu
+// and state.mu (read lock is sufficient).
+func (h *dirHandle) load() {
+	if h.loaded {
+		return
+	}
+	all := h.node.entriesSnapshot()
+	h.entries = make([]dirHandleEntry, len(all))
+	for i, nd := range all {
+		h.entries[i] = dirHandleEntry{nd.meta().name, nd}
+	}
+	h.loaded = true
+}
+
 // readEntries advances the cursor by up to n entries; n<=0 means "until end."
-// Caller holds h.mu; the returned snapshot is a shallow copy safe to use
-// outside the lock.
-func (h *dirHandle) readEntries(n int) ([]node, error) {
+// Caller holds h.mu; the returned stats are copies safe to use outside the
+// lock.
+func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	if h.closed {
 		return nil, fsutil.WrapPathErr("readdir", h.name, fs.ErrClosed)
 	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
-	all := h.node.entriesSnapshot()
-	if h.cursor >= len(all) {
+	h.load()
+	if h.cursor >= len(h.entries) {
 		if n <= 0 {
 			return nil, nil
 		}
 		return nil, io.EOF
 	}
-	end := len(all)
-	if n > 0 && h.cursor+n < end {
+	end := len(h.entries)
+	if n > 0 && n < end-h.cursor {
 		end = h.cursor + n
 	}
-	out := make([]node, end-h.cursor)
-	copy(out, all[h.cursor:end])
+	out := make([]stat, 0, end-h.cursor)
+	for _, e := range h.entries[h.cursor:end] {
+		s := e.node.meta().toStat()
+		if f, ok := e.node.(*file); ok {
+			if fstat, err := statFromFileView(&f.metadata, f.view); err == nil {
+				s = fstat
+			}
+		}
+		s.name = e.name
+		out = append(out, s)
+	}
 	h.cursor = end
 	return out, nil
 }
@@ -176,8 +209,8 @@ func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 	out := make([]fs.DirEntry, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, fs.FileInfoToDirEntry(nd.meta().toStat()))
+	for _, s := range entries {
+		out = append(out, fs.FileInfoToDirEntry(s))
 	}
 	return out, nil
 }
@@ -190,8 +223,8 @@ func (h *dirHandle) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 	out := make([]fs.FileInfo, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, nd.meta().toStat())
+	for _, s := range entries {
+		out = append(out, s)
 	}
 	return out, nil
 }
@@ -204,8 +237,8 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 		return nil, err
 	}
 	out := make([]string, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, filepath.Base(nd.meta().name))
+	for _, s := range entries {
+		out = append(out, s.Name())
 	}
 	return out, nil
 }
-- 
2.43.0


From 1295455a764a3fb9cd4f3131f00c16af379429d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 13/70] fix: synthfs: Stat names a file as it was asked for

---
 vroot/synthfs/handle.go     |  2 ++
 vroot/synthfs/handle_dir.go |  5 ++++-
 vroot/synthfs/inspect.go    | 19 +++++++++++--------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a12d32a..3d9232d 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -2,6 +2,7 @@ package synthfs
 
 import (
 	"io/fs"
+	"path/filepath"
 	"sync"
 	"syscall"
 
@@ -148,6 +149,7 @@ func (h *fileHandle) Stat() (fs.FileInfo, error) {
 	if err != nil {
 		return nil, fsutil.WrapPathErr("stat", h.name, err)
 	}
+	s.name = filepath.ToSlash(h.name)
 	s.size = info.Size()
 	return s, nil
 }
diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index afd249d..3410e60 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path/filepath"
 	"sync"
 	"syscall"
 
@@ -80,7 +81,9 @@ func (h *dirHandle) Stat() (fs.FileInfo, error) {
 	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
-	return h.node.toStat(), nil
+	s := h.node.toStat()
+	s.name = filepath.ToSlash(h.name)
+	return s, nil
 }
 
 func (h *dirHandle) Read([]byte) (int, error) {
diff --git a/vroot/synthfs/inspect.go b/vroot/synthfs/inspect.go
index 9e309fa..09e0d42 100644
--- a/vroot/synthfs/inspect.go
+++ b/vroot/synthfs/inspect.go
@@ -16,7 +16,7 @@ func (r *Root) Stat(name string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
-	return r.statNode(res.node)
+	return r.statNode(res.node, name)
 }
 
 // Lstat does not follow the final symlink; otherwise it behaves like [Stat].
@@ -27,7 +27,7 @@ func (r *Root) Lstat(name string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
-	return r.statNode(res.node)
+	return r.statNode(res.node, name)
 }
 
 // ReadLink returns the target of the symlink at name without following it.
@@ -45,15 +45,18 @@ func (r *Root) ReadLink(name string) (string, error) {
 	return filepath.FromSlash(sym.target), nil
 }
 
-// statNode composes the node's metadata into an [fs.FileInfo]. For *file the
+// statNode composes the node's metadata into an [fs.FileInfo] which, as that of
+// the os package, is named after the requested name. For *file the
 // authoritative size comes from the view. Caller must hold state.mu (read).
-func (r *Root) statNode(n node) (fs.FileInfo, error) {
+func (r *Root) statNode(n node, name string) (fs.FileInfo, error) {
+	s := n.meta().toStat()
 	if f, ok := n.(*file); ok {
-		s, err := statFromFileView(&f.metadata, f.view)
+		var err error
+		s, err = statFromFileView(&f.metadata, f.view)
 		if err != nil {
-			return nil, fsutil.WrapPathErr("stat", f.name, err)
+			return nil, fsutil.WrapPathErr("stat", name, err)
 		}
-		return s, nil
 	}
-	return n.meta().toStat(), nil
+	s.name = filepath.ToSlash(r.userPath(name))
+	return s, nil
 }
-- 
2.43.0


From 7fd4b0394bef4cf563a77325a8ac9cbe2e640925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 14/70] fix: synthfs: append atomically through handles opened
 with O_APPEND

---
 vroot/synthfs/view_mem_buf.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 1a2866b..286edee 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -65,6 +65,22 @@ func (b *memBuf) readAt(p []byte, off int64) (int, error) {
 }
 
 func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	return b.writeAtLocked(p, off)
+}
+
+// append writes p at the current end and returns the offset it was written to.
+func (b *memBuf) append(p []byte) (int64, int, error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	off := int64(len(b.content))
+	n, err := b.writeAtLocked(p, off)
+	return off, n, err
+}
+
+// writeAtLocked is writeAt for callers holding b.mu (write).
+func (b *memBuf) writeAtLocked(p []byte, off int64) (int, error) {
 	if off < 0 {
 		return 0, fmt.Errorf("synthfs: negative offset: %w", syscall.EINVAL)
 	}
@@ -77,8 +93,6 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
-	b.mu.Lock()
-	defer b.mu.Unlock()
 	end := int(off) + len(p)
 	if end > len(b.content) {
 		b.grow(end - len(b.content))
@@ -196,10 +210,13 @@ func (h *memHandle) Write(p []byte) (int, error) {
 	}
 	h.mu.Lock()
 	defer h.mu.Unlock()
-	if h.flag&os.O_APPEND != 0 {
-		h.off = int64(h.buf.length())
+	var n int
+	var err error
+	if h.flag&os.O_APPEND != 0 && len(p) > 0 {
+		h.off, n, err = h.buf.append(p)
+	} else {
+		n, err = h.buf.writeAt(p, h.off)
 	}
-	n, err := h.buf.writeAt(p, h.off)
 	h.off += int64(n)
 	if err != nil {
 		return n, fsutil.WrapPathErr("write", h.name, err)
-- 
2.43.0


From 42143c86ab6dba3b4a7156ae82965e14301909b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 15/70] fix: vroot: omit entries that disappeared from Readdir
 of adapted files

---
 vroot/iofs_from.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vroot/iofs_from.go b/vroot/iofs_from.go
index 97bd22b..1e06d17 100644
--- a/vroot/iofs_from.go
+++ b/vroot/iofs_from.go
@@ -216,16 +216,19 @@ func (f *expandedFile) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 
-	infos := make([]fs.FileInfo, len(entries))
-	for i, entry := range entries {
+	infos := make([]fs.FileInfo, 0, len(entries))
+	for _, entry := range entries {
 		info, err := entry.Info()
-		if err != nil && !errors.Is(err, fs.ErrNotExist) {
-			// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
-			// tolerated by suppressing fs.ErrNotExist, mirroring how
-			// os.(*File).Readdir behaves with disappearing entries.
+		if err != nil {
+			if errors.Is(err, fs.ErrNotExist) {
+				// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
+				// tolerated by omitting the entry, mirroring how
+				// os.(*File).Readdir behaves with disappearing entries.
+				continue
+			}
 			return nil, err
 		}
-		infos[i] = info
+		infos = append(infos, info)
 	}
 	return infos, nil
 }
-- 
2.43.0


From f95cc3ddde9cc7d4a2c888558b387ccc97e39e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 16/70] fix: vroot: WalkDir goes on with siblings after an
 ignored Lstat error

---
 vroot/walk.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index b58b7ce..02bf5e4 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -181,10 +181,13 @@ func walkDir_[F File, Fsys Fs[F]](
 		info, err := fsys.Lstat(childPath)
 		if err != nil {
 			err = fn(childPath, childRealPath, nil, err)
-			if err == SkipDir && info != nil && info.IsDir() {
-				err = nil
+			if err != nil {
+				if err == SkipDir {
+					break
+				}
+				return err
 			}
-			return err
+			continue
 		}
 		err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		if err != nil {
-- 
2.43.0


From f9cf50aafad92b185d8fb6e1776a78a948d8525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 17/70] fix: vroot: Remove refuses the root of OS-backed and
 prefixed file systems

---
 vroot/osfs/fs.go    | 4 ++++
 vroot/pathprefix.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/vroot/osfs/fs.go b/vroot/osfs/fs.go
index 768f467..a9428d4 100644
--- a/vroot/osfs/fs.go
+++ b/vroot/osfs/fs.go
@@ -219,6 +219,10 @@ func (u *Fs) ReadLink(name string) (string, error) {
 }
 
 func (u *Fs) Remove(name string) error {
+	// os.Remove would take an empty base directory away.
+	if filepath.Clean(name) == "." {
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	path, err := u.resolvePath(name)
 	if err != nil {
 		return fsutil.WrapPathErr("", name, err)
diff --git a/vroot/pathprefix.go b/vroot/pathprefix.go
index 83a8b6a..78c632c 100644
--- a/vroot/pathprefix.go
+++ b/vroot/pathprefix.go
@@ -166,6 +166,10 @@ func (w *PathPrefixFs[F]) ReadLink(name string) (string, error) {
 }
 
 func (w *PathPrefixFs[F]) Remove(name string) error {
+	// As in RemoveAll.
+	if filepath.Clean(name) == "." {
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	p, err := w.resolvePath(name)
 	if err != nil {
 		return fsutil.WrapPathErr("remove", name, err)
-- 
2.43.0


From c0eb971d0ee7e32750657ce3d502221b46c0123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 18/70] fix: tarfs: list directories the archive has no entry
 for, and replaced entries once

---
 tarfs/entdir.go | 119 +++++++++++++++++++++---------------------------
 1 file changed, 52 insertions(+), 67 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 10bff9f..29df284 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -33,76 +35,59 @@ func (d *dir) readLink() (string, error) {
 }
 
 func (d *dir) addChild(name string, hdr *Section) {
-	if d.files == nil {
-		d.files = make(map[string]direntry)
-	}
-
 	currentDir := d
-	offset := 0
-	pathLen := len(name)
-
-	for component := range strings.SplitSeq(name, "/") {
-		// Update offset to track position in original string
-		offset += len(component)
-		isLastComponent := offset >= pathLen
-		if !isLastComponent {
-			offset++ // Account for the "/" separator
-		}
-
-		if !isLastComponent {
-			// Intermediate component - ensure directory exists
-			child, ok := currentDir.files[component]
-			if !ok {
-				child = &dir{parent: currentDir}
-				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
-			}
-			_, ok = child.(*dir)
+	parent, base := path.Split(name)
+	if parent != "" {
+		for component := range strings.SplitSeq(strings.TrimSuffix(parent, "/"), "/") {
+			child, ok := currentDir.files[component].(*dir)
 			if !ok {
-				// TODO: warn about this?
-				child = &dir{parent: currentDir}
-				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
-			}
-			currentDir = child.(*dir)
-			// Ensure the child directory has an initialized files map and parent link
-			if currentDir.files == nil {
-				currentDir.files = make(map[string]direntry)
-			}
-			if currentDir.parent == nil {
-				currentDir.parent = d // Set parent if not already set
+				// The archive has no entry for the parent, or has non directory there.
+				// TODO: warn about latter?
+				child = &dir{h: implicitDirHeader(component), parent: currentDir}
+				currentDir.setChild(component, child)
 			}
+			currentDir = child
+		}
+	}
+
+	switch hdr.h.Typeflag {
+	case tar.TypeDir:
+		if existing, ok := currentDir.files[base].(*dir); ok {
+			existing.h = hdr
 		} else {
-			// Final component - add the actual entry
-			var ent direntry
-			switch hdr.h.Typeflag {
-			case tar.TypeDir:
-				if existing := currentDir.files[component]; existing != nil {
-					dirHandle, ok := existing.(*dir)
-					if !ok {
-						// TODO: warn about this?
-						dirHandle = &dir{parent: currentDir}
-						currentDir.files[component] = dirHandle
-					}
-					dirHandle.h = hdr
-					if dirHandle.parent == nil {
-						dirHandle.parent = currentDir
-					}
-				} else {
-					ent = &dir{h: hdr, parent: currentDir}
-				}
-			case tar.TypeSymlink:
-				ent = &symlink{h: hdr}
-			case tar.TypeLink:
-				ent = &hardlink{h: hdr}
-			default:
-				ent = &file{h: hdr}
-			}
-			if ent != nil {
-				currentDir.files[component] = ent
-				currentDir.ordered = append(currentDir.ordered, ent)
-			}
+			currentDir.setChild(base, &dir{h: hdr, parent: currentDir})
 		}
+	case tar.TypeSymlink:
+		currentDir.setChild(base, &symlink{h: hdr})
+	case tar.TypeLink:
+		currentDir.setChild(base, &hardlink{h: hdr})
+	default:
+		currentDir.setChild(base, &file{h: hdr})
+	}
+}
+
+// setChild places ent under name, replacing an existing entry.
+func (d *dir) setChild(name string, ent direntry) {
+	if d.files == nil {
+		d.files = make(map[string]direntry)
+	}
+	if existing, ok := d.files[name]; ok {
+		d.ordered[slices.Index(d.ordered, existing)] = ent
+	} else {
+		d.ordered = append(d.ordered, ent)
+	}
+	d.files[name] = ent
+}
+
+// implicitDirHeader makes up a header for a directory
+// which only exists as a parent of other entries.
+func implicitDirHeader(name string) *Section {
+	return &Section{
+		h: &tar.Header{
+			Typeflag: tar.TypeDir,
+			Name:     name + "/",
+			Mode:     0o755,
+		},
 	}
 }
 
@@ -298,7 +283,7 @@ func (d *openDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, pathErr("readdir", d.path, fs.ErrClosed)
 	}
 
-	if d.cursor >= len(d.dir.files) {
+	if d.cursor >= len(d.dir.ordered) {
 		if n <= 0 {
 			return nil, nil
 		}
@@ -309,7 +294,7 @@ func (d *openDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		n = len(d.dir.ordered) - d.cursor
 	}
 
-	out := make([]fs.DirEntry, min(n, len(d.dir.files)-d.cursor))
+	out := make([]fs.DirEntry, min(n, len(d.dir.ordered)-d.cursor))
 	for i := range out {
 		out[i] = fs.FileInfoToDirEntry(d.dir.ordered[d.cursor].header().h.FileInfo())
 		d.cursor++
-- 
2.43.0


From 7f334f59722bfeb57cc6762c26a4b7ec18f9213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 19/70] fix: tarfs: map absolute, dot-dot prefixed and odd
 entry names to listable paths

---
 tarfs/fs.go      |  4 ++--
 tarfs/headers.go | 28 ++++++++++++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index cb84efa..510102a 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -50,7 +50,7 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		isRooted: opt.IsRooted,
 	}
 
-	if rootHeader, ok := headers["."]; ok {
+	if rootHeader, ok := headers["."]; ok && rootHeader.h.Typeflag == tar.TypeDir {
 		fsys.subRoot = &dir{h: rootHeader}
 	} else {
 		// Is it even possible?
@@ -68,7 +68,7 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	delete(headers, ".")
 
 	for _, key := range slices.Sorted(maps.Keys(headers)) {
-		if strings.HasPrefix(key, "..") {
+		if key == ".." || strings.HasPrefix(key, "../") {
 			// reject paths traversing upward even when tarinsecurepath = 1.
 			// Anyway fs.ValidPath check will reject this.
 			continue
diff --git a/tarfs/headers.go b/tarfs/headers.go
index 23a74a3..dd9830c 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -7,21 +7,37 @@ import (
 	"iter"
 	"math"
 	"path"
+	"strings"
 )
 
-func tryMapsCollect[K comparable, V any](keyMapper func(V) K, seq iter.Seq2[V, error]) (map[K]V, error) {
-	collected := make(map[K]V)
-	for v, err := range seq {
+func tryCollectHeaderOffsets(seq iter.Seq2[*Section, error]) (map[string]*Section, error) {
+	collected := make(map[string]*Section)
+	for s, err := range seq {
 		if err != nil {
 			return collected, err
 		}
-		collected[keyMapper(v)] = v
+		if s.h.Typeflag == tar.TypeXGlobalHeader {
+			// not an entry; must not hide one of the same name.
+			continue
+		}
+		key := entryName(s.h.Name)
+		if s.h.FileInfo().Name() != path.Base(key) {
+			// e.g. "foo/." for a regular file.
+			s.h.Name = key
+		}
+		collected[key] = s
 	}
 	return collected, nil
 }
 
-func tryCollectHeaderOffsets(seq iter.Seq2[*Section, error]) (map[string]*Section, error) {
-	return tryMapsCollect(func(ho *Section) string { return path.Clean(ho.h.Name) }, seq)
+// entryName converts a name in an archive to the path in [*Fs].
+// Absolute names are taken as relative to the root, as tar(1) does.
+func entryName(name string) string {
+	name = strings.TrimLeft(path.Clean(name), "/")
+	if name == "" {
+		return "."
+	}
+	return name
 }
 
 // Section is file section within tar reader.
-- 
2.43.0


From fd4a9be975d53db676bfdca3598a257482b250ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 20/70] fix: tarfs: resolve dot, dot-dot and raw targets in
 symbolic links

---
 tarfs/entdir.go     | 34 +++++++++++++++-------------------
 tarfs/entsymlink.go |  7 ++-----
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 29df284..4a15e6f 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -114,8 +114,9 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 		isLastComponent = len(rest) == 0
 
 		switch component {
-		case ".":
-			return currentDir, nil
+		case "", ".":
+			currentDirent = currentDir
+			continue
 		case "..":
 			if fsys.isRooted && (currentDir == fsys.root || currentDir == fsys.subRoot) {
 				return nil, pathErr("open", name, fsutil.ErrPathEscapes)
@@ -124,6 +125,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				return nil, pathErr("open", name, fs.ErrNotExist)
 			}
 			currentDir = currentDir.parent
+			currentDirent = currentDir
 			continue
 		}
 
@@ -142,12 +144,19 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 
 				target, _ := symlink.readLink()
 
+				if target == "" {
+					return nil, pathErr("open", name, fs.ErrNotExist)
+				}
 				// Check for absolute symlinks - they always escape our filesystem root
 				if strings.HasPrefix(target, "/") {
 					return nil, pathErr("open", name, fsutil.ErrPathEscapes)
 				}
 
-				rest = target + "/" + rest
+				if isLastComponent {
+					rest = target
+				} else {
+					rest = target + "/" + rest
+				}
 
 				continue
 			}
@@ -155,24 +164,11 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 
 		if !isLastComponent {
 			// More path components to traverse
-			switch x := currentDirent.(type) {
-			case *dir:
-				currentDir = x
-				continue
-			case *hardlink:
-				// This is almost impossible but handle anyway
-				target, err := fsys.resolveHardlink(x)
-				if err != nil {
-					return nil, err
-				}
-				if dirTarget, ok := target.(*dir); ok {
-					currentDir = dirTarget
-					continue
-				}
-				return nil, pathErr("open", name, syscall.ENOTDIR)
-			default:
+			x, ok := currentDirent.(*dir)
+			if !ok {
 				return nil, pathErr("open", name, syscall.ENOTDIR)
 			}
+			currentDir = x
 		}
 	}
 
diff --git a/tarfs/entsymlink.go b/tarfs/entsymlink.go
index 18e3e6c..d394c20 100644
--- a/tarfs/entsymlink.go
+++ b/tarfs/entsymlink.go
@@ -1,9 +1,6 @@
 package tarfs
 
-import (
-	"io"
-	"path"
-)
+import "io"
 
 type symlink struct {
 	h *Section
@@ -19,5 +16,5 @@ func (s *symlink) open(r io.ReaderAt, path string) openDirentry {
 }
 
 func (s *symlink) readLink() (string, error) {
-	return path.Clean(s.h.h.Linkname), nil
+	return s.h.h.Linkname, nil
 }
-- 
2.43.0


From 9d532ed5cfcb1ef56638da732e330a5c0e3a36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 21/70] fix: tarfs: resolve hard links once, through chains and
 to symbolic links, with the size of their content

---
 tarfs/enthardlink.go | 103 +++++++++++++++++++++++++++++++------------
 tarfs/fs.go          |  20 +++------
 2 files changed, 81 insertions(+), 42 deletions(-)

diff --git a/tarfs/enthardlink.go b/tarfs/enthardlink.go
index bb17e3f..b02f57f 100644
--- a/tarfs/enthardlink.go
+++ b/tarfs/enthardlink.go
@@ -1,13 +1,20 @@
 package tarfs
 
 import (
-	"fmt"
+	"archive/tar"
+	"errors"
 	"io"
+	"io/fs"
 	"syscall"
+
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
 
+// hardlink is a link that is not resolved (yet).
+// Once resolved, it is replaced with an entry of the same kind as the target.
 type hardlink struct {
-	h *Section
+	h   *Section
+	err error // why it can not be opened
 }
 
 func (h *hardlink) header() *Section {
@@ -15,7 +22,6 @@ func (h *hardlink) header() *Section {
 }
 
 func (h *hardlink) open(r io.ReaderAt, path string) openDirentry {
-	// Hard links should not be opened directly - they should be resolved first
 	panic("hardlink.open() should not be called - hardlinks should be resolved before opening")
 }
 
@@ -23,33 +29,76 @@ func (h *hardlink) readLink() (string, error) {
 	return "", pathErr("readlink", "", syscall.EINVAL)
 }
 
-func (h *hardlink) overlayHardlink(target direntry) direntry {
-	return &hardlinkOverlay{h, target}
-}
+// resolveHardlinks replaces every hardlink under d with what it links to.
+// Links without a proper target remain and report an error when opened.
+func (fsys *Fs) resolveHardlinks(d *dir) {
+	type place struct {
+		dir  *dir
+		name string
+	}
+	var (
+		places  = make(map[*hardlink]place)
+		collect func(d *dir)
+		resolve func(hl *hardlink) direntry
+	)
 
-type hardlinkOverlay struct {
-	hl  *hardlink
-	tgt direntry
-}
+	collect = func(d *dir) {
+		for name, ent := range d.files {
+			switch x := ent.(type) {
+			case *dir:
+				collect(x)
+			case *hardlink:
+				places[x] = place{d, name}
+			}
+		}
+	}
 
-func (c *hardlinkOverlay) header() *Section {
-	return c.hl.header()
-}
+	resolve = func(hl *hardlink) direntry {
+		if hl.err != nil {
+			return hl
+		}
+		hl.err = errdef.ELOOP // to be found if hl links to itself.
+
+		target, err := fsys.root.openChild(entryName(hl.h.h.Linkname), true, fsys)
+		if err != nil {
+			var pe *fs.PathError
+			if errors.As(err, &pe) {
+				err = pe.Err
+			}
+			hl.err = err
+			return hl
+		}
+		if x, ok := target.(*hardlink); ok {
+			target = resolve(x)
+		}
 
-func (c *hardlinkOverlay) open(r io.ReaderAt, path string) openDirentry {
-	switch x := c.tgt.(type) {
-	case *file:
-		open := x.open(r, path).(*openFile)
-		open.fileInfo = c.hl.header()
-		return open
-	case *dir:
-		open := x.open(r, path).(*openDir)
-		open.fileInfo = c.hl.header()
-		return open
+		var resolved direntry
+		h := *hl.h.h
+		switch x := target.(type) {
+		case *file:
+			h.Size = x.h.h.Size
+			s := *x.h
+			s.h = &h
+			resolved = &file{h: &s}
+		case *symlink:
+			h.Typeflag, h.Linkname = tar.TypeSymlink, x.h.h.Linkname
+			s := *hl.h
+			s.h = &h
+			resolved = &symlink{h: &s}
+		case *hardlink:
+			hl.err = x.err
+			return hl
+		default:
+			hl.err = syscall.EPERM // hard link to directory
+			return hl
+		}
+		p := places[hl]
+		p.dir.setChild(p.name, resolved)
+		return resolved
 	}
-	panic(fmt.Errorf("hardlink targetting unknown type (%T)", c.tgt))
-}
 
-func (c *hardlinkOverlay) readLink() (string, error) {
-	return "", pathErr("readlink", "", syscall.EINVAL)
+	collect(d)
+	for hl := range places {
+		resolve(hl)
+	}
 }
diff --git a/tarfs/fs.go b/tarfs/fs.go
index 510102a..f1a42f0 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -5,7 +5,6 @@ import (
 	"io"
 	"io/fs"
 	"maps"
-	"path"
 	"slices"
 	"strings"
 	"time"
@@ -95,12 +94,9 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	// But different for sub-fsys returned from Sub.
 	fsys.root = fsys.subRoot
 
-	return fsys, nil
-}
+	fsys.resolveHardlinks(fsys.root)
 
-func (fsys *Fs) resolveHardlink(hl *hardlink) (direntry, error) {
-	target := path.Clean(hl.header().Header().Linkname)
-	return fsys.root.openChild(target, false, fsys)
+	return fsys, nil
 }
 
 func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
@@ -115,15 +111,6 @@ func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
 		return nil, err
 	}
 
-	// Handle hardlinks
-	if hl, ok := dirent.(*hardlink); ok {
-		target, err := fsys.resolveHardlink(hl)
-		if err != nil {
-			return nil, err
-		}
-		return hl.overlayHardlink(target), nil
-	}
-
 	return dirent, nil
 }
 
@@ -132,6 +119,9 @@ func (fsys *Fs) Open(name string) (fs.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	if hl, ok := f.(*hardlink); ok {
+		return nil, pathErr("open", name, hl.err)
+	}
 	return f.open(fsys.r, name), nil
 }
 
-- 
2.43.0


From 5e78706ae0ff2408192d4fcefffae4d2f79951f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 22/70] fix: tarfs: report bodies and sparse maps that do not
 match the archive

---
 tarfs/headers.go | 57 ++++++++++++++++++++++++++++++++++--------------
 tarfs/reader.go  |  4 +++-
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index dd9830c..15422e0 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -7,6 +7,7 @@ import (
 	"iter"
 	"math"
 	"path"
+	"strconv"
 	"strings"
 )
 
@@ -96,11 +97,16 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				hh.headerStart = prev.bodyEnd + (-prev.bodyEnd)&(blockSize-1)
 			}
 
-			hh.holes, _ = reconstructSparse(r, hh, &blk)
+			var physicalEnd int64
+			hh.holes, physicalEnd, err = reconstructSparse(r, hh, &blk)
+			if err != nil {
+				yield(nil, fmt.Errorf("read tar archive: %w", err))
+				return
+			}
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-				tar.TypeCont, tar.TypeXHeader, tar.TypeXGlobalHeader,
+				tar.TypeXHeader, tar.TypeXGlobalHeader,
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
@@ -109,13 +115,16 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				// nor there https://www.gnu.org/software/tar/manual/html_node/Standard.html
 				hh.bodyEnd = hh.headerEnd + hh.h.Size
 				if hh.holes != nil {
-					// reverse-caluculating size
-					// I dunno how many tar files out wilds have sparse in them.
-					var holeSize int64
+					// Data regions in the sparse map must fill exactly what is stored in the archive.
+					dataSize := hh.h.Size
 					for _, hole := range hh.holes {
-						holeSize += hole.Length
+						dataSize -= hole.Length
+					}
+					hh.bodyEnd = hh.headerEnd + dataSize
+					if hh.bodyEnd != physicalEnd {
+						yield(nil, fmt.Errorf("read tar archive: sparse map: %w", tar.ErrHeader))
+						return
 					}
-					hh.bodyEnd = hh.headerEnd + hh.h.Size - holeSize
 				}
 			}
 
@@ -152,18 +161,20 @@ func (r *countingReader) Seek(offset int64, whence int) (int64, error) {
 	return n, err
 }
 
-func reconstructSparse(r io.ReaderAt, hdr *Section, blk *block) (sparseHoles, error) {
+// reconstructSparse returns holes of hdr and where its stored data ends.
+// Both are zero if hdr is not a sparse file.
+func reconstructSparse(r io.ReaderAt, hdr *Section, blk *block) (sparseHoles, int64, error) {
 	if hdr.h.Typeflag == tar.TypeXGlobalHeader {
-		return nil, nil
+		return nil, 0, nil
 	}
 
 	sr := io.NewSectionReader(r, int64(hdr.headerStart), int64(hdr.headerEnd)-int64(hdr.headerStart))
 
 	var p parser
 	for {
-		n, err := io.ReadFull(sr, blk[:])
-		if (err != nil && err != io.EOF) || n == 0 {
-			return nil, err
+		_, err := io.ReadFull(sr, blk[:])
+		if err != nil {
+			return nil, 0, err
 		}
 		switch flag := blk.toV7().typeFlag()[0]; flag {
 		case tar.TypeXHeader, tar.TypeXGlobalHeader:
@@ -182,20 +193,34 @@ func reconstructSparse(r io.ReaderAt, hdr *Section, blk *block) (sparseHoles, er
 	}
 }
 
-func handleSparseFile(sr io.Reader, hdr *Section, rawHdr *block) (sparseHoles, error) {
+func handleSparseFile(sr *io.SectionReader, hdr *Section, rawHdr *block) (sparseHoles, int64, error) {
+	var p parser
+	physicalSize := p.parseNumeric(rawHdr.toV7().size())
+	if paxSize := hdr.h.PAXRecords["size"]; paxSize != "" {
+		physicalSize, p.err = strconv.ParseInt(paxSize, 10, 64)
+	}
+	if p.err != nil {
+		return nil, 0, p.err
+	}
+	off, err := sr.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return nil, 0, err
+	}
+
 	var spd sparseDatas
-	var err error
 	if hdr.h.Typeflag == tar.TypeGNUSparse {
 		spd, err = readOldGNUSparseMap(sr, rawHdr)
+		// extension blocks of the map are not part of the data.
+		off = hdr.headerEnd - hdr.headerStart
 	} else {
 		spd, err = readGNUSparsePAXHeaders(sr, hdr)
 	}
 
 	if err == nil && spd != nil {
-		return invertSparseEntries(spd, hdr.h.Size), nil
+		return invertSparseEntries(spd, hdr.h.Size), hdr.headerStart + off + physicalSize, nil
 	}
 
-	return nil, err
+	return nil, 0, err
 }
 
 func readOldGNUSparseMap(sr io.Reader, blk *block) (sparseDatas, error) {
diff --git a/tarfs/reader.go b/tarfs/reader.go
index 77d6787..04db566 100644
--- a/tarfs/reader.go
+++ b/tarfs/reader.go
@@ -14,7 +14,9 @@ type seekReadReaderAt interface {
 
 func makeReader(ra io.ReaderAt, h *Section) seekReadReaderAt {
 	if h.holes == nil {
-		return io.NewSectionReader(ra, h.BodyStart(), h.BodyEnd()-h.BodyStart())
+		sr := io.NewSectionReader(ra, h.BodyStart(), h.BodyEnd()-h.BodyStart())
+		// Unlike sr, it does not take an archive cut short within the body for the end of the file.
+		return stream.NewMultiReadAtSeekCloser([]stream.SizedReaderAt{{R: sr, Size: sr.Size()}})
 	}
 
 	var readers []stream.SizedReaderAt
-- 
2.43.0


From 8193fc3db93785516b03b39bb9f4cd656ec41ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 23/70] fix: fsutil: resolve links below linked directories and
 dot-dot after links as the kernel does

---
 fsutil/resolve_symlink.go | 187 +++++++++++++++++++-------------------
 1 file changed, 95 insertions(+), 92 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index ca41409..6c406d6 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -1,13 +1,12 @@
 package fsutil
 
 import (
-	"bytes"
 	"cmp"
 	"errors"
 	"io/fs"
-	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
@@ -65,89 +64,106 @@ func ResolvePath(
 		name = name[:idx]
 	}
 
-	curLinkResolved := 0
-
-	resolved := new(bytes.Buffer)
+	resolved, numSymlink, err := resolveFrom(fsys, "", name, maxSymlinkResolutionCount)
+	if err != nil {
+		return resolved, err
+	}
+	if numSymlink >= maxSymlinkResolutionCount {
+		return resolved, WrapPathErr("stat", name, errdef.ELOOP)
+	}
 
-	i := 0
-	offStart := 0
-	offEnd := 0
-	for offStart < len(name) {
-		if i > 0 {
-			resolved.WriteByte(filepath.Separator)
+	if lastPart != "" {
+		if resolved == "." {
+			return lastPart, nil
 		}
+		resolved += string(filepath.Separator) + lastPart
+	}
 
-		if idx := strings.Index(name[offStart:], string(filepath.Separator)); idx >= 0 {
-			offEnd = offStart + idx
-		} else {
-			offEnd = len(name)
-		}
+	return resolved, nil
+}
+
+// resolveFrom walks rest component by component starting from the directory dir, following every symlink.
+// dir must be a real path, or be empty for the root of fsys.
+//
+// Symlink targets are walked as they are, not cleaned:
+// a ".." after a link is the parent of what the link points to.
+//
+// If an error occurs, resolved is where the walk has stopped joined with unresolved components.
+func resolveFrom(
+	fsys interface {
+		ReadLinkFs
+		LstatFs
+	},
+	dir, rest string,
+	maxResolution int,
+) (resolved string, numSymlink int, err error) {
+	const sep = string(filepath.Separator)
 
-		resolved.WriteString(name[offStart:offEnd])
+	resolved = dir
+	for rest != "" {
+		var component string
+		component, rest, _ = strings.Cut(rest, sep)
 
-		info, err := fsys.Lstat(resolved.String())
-		if err != nil {
-			if offEnd < len(name) {
-				resolved.WriteString(name[offEnd:])
+		switch component {
+		case "", ".":
+			continue
+		case "..":
+			if resolved == "" {
+				// *os.Root rejects this anyway, since it cannot tell final result is within root.
+				// *os.Root depends on "at" variants of syscalls(e.g. openat.)
+				// The root directory may be moved after open,
+				// but you don't have robust way to convert an fd back to a path on the filesystem,
+				// maybe even multiple paths are linked to a file.
+				return filepath.Join(component, rest), numSymlink, ErrPathEscapes
 			}
-			return resolved.String(), err
+			resolved = filepath.Dir(resolved)
+			if resolved == "." {
+				resolved = ""
+			}
+			continue
 		}
 
-		if info.Mode()&fs.ModeSymlink == 0 {
-			offStart = offEnd + 1
-			i++
-			continue
+		current := filepath.Join(resolved, component)
+		if !filepath.IsLocal(current) {
+			// e.g. drive letter in link target, or reserved names.
+			return filepath.Join(current, rest), numSymlink, ErrPathEscapes
 		}
 
-		currentResolved, numSymlink, err := ResolveSymlink(
-			fsys,
-			resolved.String(),
-			maxSymlinkResolutionCount-curLinkResolved,
-		)
+		info, err := fsys.Lstat(current)
 		if err != nil {
-			return resolved.String(), err
+			return filepath.Join(current, rest), numSymlink, err
 		}
 
-		curLinkResolved += numSymlink
-		if curLinkResolved >= maxSymlinkResolutionCount {
-			return cmp.Or(
-					currentResolved,
-					resolved.String(),
-				), WrapPathErr(
-					"stat",
-					name,
-					errdef.ELOOP,
-				)
+		if info.Mode()&fs.ModeSymlink == 0 {
+			if rest != "" && !info.IsDir() {
+				return filepath.Join(current, rest), numSymlink, WrapPathErr("stat", current, syscall.ENOTDIR)
+			}
+			resolved = current
+			continue
 		}
 
-		if currentResolved == "" || !filepath.IsLocal(currentResolved) {
-			// Target is absolute or has "..".
-			// *os.Root rejects this anyway, since it cannot tell final result is within root.
-			// *os.Root depends on "at" variants of syscalls(e.g. openat.)
-			// The root directory may be moved after open,
-			// but you don't have robust way to convert an fd back to a path on the filesystem,
-			// maybe even multiple paths are linked to a file.
-			return cmp.Or(currentResolved, resolved.String()), ErrPathEscapes
+		if numSymlink >= maxResolution {
+			return filepath.Join(current, rest), numSymlink, WrapPathErr("stat", current, errdef.ELOOP)
 		}
+		numSymlink++
 
-		if offEnd >= len(name) {
-			name = currentResolved
-		} else {
-			name = currentResolved + name[offEnd:]
+		target, err := fsys.ReadLink(current)
+		if err != nil {
+			return filepath.Join(current, rest), numSymlink, err
+		}
+		target = filepath.FromSlash(target)
+		if filepath.IsAbs(target) || strings.HasPrefix(target, sep) {
+			return filepath.Join(current, rest), numSymlink, ErrPathEscapes
 		}
-		i = 0
-		offStart = 0
-		resolved.Reset()
-	}
 
-	if lastPart != "" {
-		if resolved.Len() > 0 {
-			resolved.WriteByte(filepath.Separator)
+		if rest != "" || strings.HasSuffix(target, sep) {
+			// what target points to must be a directory.
+			target += sep + cmp.Or(rest, ".")
 		}
-		resolved.WriteString(lastPart)
+		rest = target
 	}
 
-	return resolved.String(), nil
+	return cmp.Or(resolved, "."), numSymlink, nil
 }
 
 // ResolveSymlink retruns resoluition result with numbers of symlink that has been resolved.
@@ -171,38 +187,25 @@ func ResolveSymlink(
 	linkRealPath string,
 	maxResolution int,
 ) (resolved string, numSymlink int, err error) {
-	resolved = filepath.Clean(linkRealPath)
-	var i int
-	for i = 0; i < maxResolution; i++ {
-		target, err := fsys.ReadLink(resolved)
-		if err != nil {
-			return "", i, err
-		}
-
-		target = filepath.Clean(target)
+	linkRealPath = filepath.Clean(linkRealPath)
 
-		if filepath.IsAbs(target) {
-			// can't tell whether this target is non-symlnk or not,
-			// just return ""
-			return "", i + 1, nil
-		}
-
-		resolved = filepath.Join(filepath.Dir(resolved), target)
+	// linkRealPath must be a link.
+	if _, err := fsys.ReadLink(linkRealPath); err != nil {
+		return "", 0, err
+	}
 
-		if !filepath.IsLocal(resolved) {
-			// same as absolute path,
-			// return just ""
-			return "", i + 1, nil
-		}
+	dir, base := filepath.Split(linkRealPath)
+	if dir = filepath.Clean(dir); dir == "." {
+		dir = ""
+	}
 
-		info, err := fsys.Lstat(resolved)
-		if err != nil {
-			return "", i, err
-		}
-		if info.Mode()&os.ModeSymlink == 0 {
-			return resolved, i + 1, nil
+	resolved, numSymlink, err = resolveFrom(fsys, dir, base, maxResolution)
+	if err != nil {
+		resolved = ""
+		if errors.Is(err, ErrPathEscapes) {
+			// can't tell what the target is, just return "".
+			err = nil
 		}
 	}
-
-	return "", i, WrapPathErr("stat", linkRealPath, errdef.ELOOP)
+	return resolved, numSymlink, err
 }
-- 
2.43.0


From 56bba75ee67c51c4d0e772d0870294a4c55936ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 24/70] fix: CopyAll and CopyPath fail to copy into directories
 without owner write bits

The permission bits of a copied directory were set before its entries were
copied, so any directory with mode 0o555 (every directory of an embed.FS or
fstest.MapFS) made the copy fail.
---
 fsutil/copy_fs.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 748b875..53118a1 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -58,7 +58,8 @@ func (opt CopyFsOption[Fsys, File]) CopyAll(dst Fsys, src fs.FS, root string) er
 	srcLstat, hasLstat := src.(interface {
 		Lstat(name string) (fs.FileInfo, error)
 	})
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	restricted := make(map[string]fs.FileMode)
+	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			if opt.IgnoreErr != nil && opt.IgnoreErr(err) {
 				return nil
@@ -78,9 +79,27 @@ func (opt CopyFsOption[Fsys, File]) CopyAll(dst Fsys, src fs.FS, root string) er
 			return statErr
 		}
 
-		dstPath := pathpkg.Join(root, path)
-		return opt.copyEntry(dst, src, filepath.FromSlash(dstPath), path, info, nil)
+		dstPath := filepath.FromSlash(pathpkg.Join(root, path))
+		if perm := opt.maskPerm(info.Mode()); info.IsDir() && perm&0o700 != 0o700 {
+			restricted[dstPath] = perm
+		}
+		return opt.copyEntry(dst, src, dstPath, path, info, nil)
 	})
+	if err != nil {
+		return err
+	}
+	return chmodRestricted(dst, restricted)
+}
+
+// chmodRestricted sets permission bits of directories whose bits would have kept their entries
+// from being copied, children first.
+func chmodRestricted(dst ChmodFs, restricted map[string]fs.FileMode) error {
+	for _, dir := range slices.Backward(slices.Sorted(maps.Keys(restricted))) {
+		if err := dst.Chmod(dir, restricted[dir]); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // CopyPath copies only the specified paths from src filesystem to dst filesystem.
@@ -133,6 +152,8 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		}
 	}
 
+	restricted := make(map[string]fs.FileMode)
+
 	// Create directories
 	for _, dir := range slices.Sorted(maps.Keys(dirs)) {
 		if dir == "." {
@@ -151,7 +172,11 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		if err != nil {
 			return err
 		}
-		err = dst.Chmod(dir, opt.maskPerm(srcInfo.Mode()))
+		perm := opt.maskPerm(srcInfo.Mode())
+		if perm&0o700 != 0o700 {
+			restricted[dir] = perm
+		}
+		err = dst.Chmod(dir, perm|0o700)
 		if err != nil {
 			return err
 		}
@@ -160,13 +185,16 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 	// Second pass: copy all files
 	for _, pi := range sources {
 		dstPath := filepath.Join(root, pi.path)
+		if perm := opt.maskPerm(pi.info.Mode()); pi.info.IsDir() && perm&0o700 != 0o700 {
+			restricted[dstPath] = perm
+		}
 		err := opt.copyEntry(dst, src, dstPath, pi.path, pi.info, nil)
 		if err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return chmodRestricted(dst, restricted)
 }
 
 // copyEntry performs the actual copy operation for a single entry
@@ -187,13 +215,14 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 	var err error
 	switch {
 	case info.IsDir():
-		// Create directory with fs.ModePerm then set proper permissions
+		// Create directory with fs.ModePerm then set proper permissions.
+		// The caller takes back owner bits the directory should not have, once its entries are copied.
 		err = dst.Mkdir(dstPath, fs.ModePerm)
 		if err != nil && !errors.Is(err, fs.ErrExist) {
 			return err
 		}
 
-		err = dst.Chmod(dstPath, perm)
+		err = dst.Chmod(dstPath, perm|0o700)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From db86db9e7e195a5babc0b6fe3f26c9382d5707b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 25/70] fix: copying a file ignores the error of closing the
 destination

A destination which reports a failed write only on Close left an incomplete
file behind a copy that reported success.
---
 fsutil/copy_fs.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 53118a1..fe51926 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -242,7 +242,12 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil {
 			return err
 		}
-		defer dstFile.Close()
+		closed := false
+		defer func() {
+			if !closed {
+				_ = dstFile.Close()
+			}
+		}()
 
 		// Copy content using io.CopyBuffer
 		bufP := bufpool.GetBytes()
@@ -254,6 +259,12 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 			return err
 		}
 
+		closed = true // at least tried.
+		err = dstFile.Close()
+		if err != nil {
+			return err
+		}
+
 	case info.Mode()&fs.ModeSymlink != 0:
 		// Handle symlink if src supports ReadLink and dst supports Symlink
 		if srcReadLink, hasReadLink := any(src).(ReadLinkFs); hasReadLink {
-- 
2.43.0


From 0b20a1aa91f23e96aca48fb3a224e24ef7c4c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 26/70] fix: copied files do not get the permission bits of the
 source

Bits masked by the umask were dropped, and a file which already existed kept its
own bits.
---
 fsutil/copy_fs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index fe51926..9fe2e23 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -265,6 +265,12 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 			return err
 		}
 
+		// perm given to OpenFile is filtered by umask and does not apply to existing files.
+		err = dst.Chmod(dstPath, perm)
+		if err != nil {
+			return err
+		}
+
 	case info.Mode()&fs.ModeSymlink != 0:
 		// Handle symlink if src supports ReadLink and dst supports Symlink
 		if srcReadLink, hasReadLink := any(src).(ReadLinkFs); hasReadLink {
-- 
2.43.0


From e846b85a981dafa60ebbda1b63b763665695826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 27/70] fix: CopyPath fails for a root of more than one element

The parents of the root were looked up in the source as "..".
---
 fsutil/copy_fs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 9fe2e23..01e9012 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -165,8 +165,8 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		}
 		// Extract the relative part by removing root prefix
 		relDir, err := filepath.Rel(root, dir)
-		if err != nil || relDir == "." {
-			continue // Skip if we can't get relative path or if it's the root itself
+		if err != nil || relDir == "." || !filepath.IsLocal(relDir) {
+			continue // Skip if we can't get relative path or if it's the root itself or its parent
 		}
 		srcInfo, err := fs.Stat(src, filepath.ToSlash(relDir))
 		if err != nil {
-- 
2.43.0


From cd813176467502761ed6a8d36eeefce3e9045431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 28/70] fix: copying a directory over a file chmods the file
 and reports success

---
 fsutil/copy_fs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 01e9012..d8f7c9b 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -221,6 +221,15 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil && !errors.Is(err, fs.ErrExist) {
 			return err
 		}
+		if statFs, ok := any(dst).(StatFs); ok && err != nil {
+			dstInfo, statErr := statFs.Stat(dstPath)
+			if statErr != nil {
+				return statErr
+			}
+			if !dstInfo.IsDir() {
+				return err
+			}
+		}
 
 		err = dst.Chmod(dstPath, perm|0o700)
 		if err != nil {
-- 
2.43.0


From eae07937b2804c0461eb585e12d3bc1b3782f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 29/70] fix: MkdirRandom leaves the directory behind when it
 can not be opened

---
 fsutil/open_random.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fsutil/open_random.go b/fsutil/open_random.go
index 28e6363..ab67373 100644
--- a/fsutil/open_random.go
+++ b/fsutil/open_random.go
@@ -67,7 +67,14 @@ func MkdirRandom[FS interface {
 			if err != nil {
 				return *new(File), err
 			}
-			return fsys.OpenFile(name, os.O_RDONLY, 0)
+			f, err := fsys.OpenFile(name, os.O_RDONLY, 0)
+			if err != nil {
+				if removeFs, ok := any(fsys).(RemoveAllFs); ok {
+					_ = removeFs.RemoveAll(name)
+				}
+				return *new(File), err
+			}
+			return f, nil
 		},
 	)
 }
-- 
2.43.0


From 0c3bd098391d44b40187c3a40b2ecad4494f7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 30/70] fix: TempFilePolicyDir for "." does not match its own
 temporary files

---
 fsutil/safe_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fsutil/safe_write.go b/fsutil/safe_write.go
index 535d16d..d13f362 100644
--- a/fsutil/safe_write.go
+++ b/fsutil/safe_write.go
@@ -473,6 +473,7 @@ func (p TempFilePolicyDir[Fsys, File]) Match(path string) bool {
 
 	// Check if path is within temp directory
 	isInTempDir := cleanPath == cleanTempDir ||
+		(cleanTempDir == "." && filepath.IsLocal(cleanPath)) ||
 		(len(cleanPath) > len(cleanTempDir)+1 &&
 			cleanPath[:len(cleanTempDir)] == cleanTempDir &&
 			cleanPath[len(cleanTempDir)] == filepath.Separator)
-- 
2.43.0


From 6a8d05e638e26bf6c616b4109d22b2b7ceaf8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 31/70] fix: PathFromTail yields the root path twice

---
 fsutil/pathutil/head_tail.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fsutil/pathutil/head_tail.go b/fsutil/pathutil/head_tail.go
index 995b8ff..711fd13 100644
--- a/fsutil/pathutil/head_tail.go
+++ b/fsutil/pathutil/head_tail.go
@@ -43,7 +43,7 @@ func PathFromTail(name string) iter.Seq[string] {
 		if !yield(vol + name) {
 			return
 		}
-		if name == "." {
+		if name == "." || name == string(filepath.Separator) {
 			return
 		}
 		rest := name
-- 
2.43.0


From 3da3534e16c00830ac69731190f68436d402cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 32/70] fix: Pull never recovers from a part file larger than
 the source

When the caller does not know the size, a part file which has outgrown the size
the source declares made every later attempt fail with io.ErrUnexpectedEOF.
---
 fsutil/resumable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 7dfa772..cbd1d9c 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -341,6 +341,9 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 		trusted := srcInfo.ETag == "" || // no-etag world: size-based resume
 			srcInfo.ETag == storedETag || // exact sidecar match
 			(storedETag == "" && expected.ETag != "" && srcInfo.ETag == expected.ETag)
+		if srcInfo.Size >= 0 && startAt > srcInfo.Size {
+			trusted = false // oversized partial
+		}
 		if !trusted {
 			_ = r.Close()
 			if rerr := removePartFiles[Fsys, File](fsys, partPath, sidecarPath); rerr != nil {
-- 
2.43.0


From fbafa955b33d82750bc983fd56304276f1dc1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 33/70] fix: Push of an empty file commits whatever the sink
 holds

Without Append the sink had no part file to commit, or committed the partial
content an earlier push of another version had left.
---
 fsutil/resumable.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index cbd1d9c..8cb1e58 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -504,7 +504,8 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	}
 
 	// Step 4: sink already has all bytes — just commit.
-	if offset == actualSize {
+	// At offset 0 the sink may have nothing to commit yet, or leftovers of other content.
+	if offset == actualSize && offset > 0 {
 		return sink.Commit(ctx)
 	}
 
-- 
2.43.0


From dcc07cf3abcb3b13a2f9075f584da445578c32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 34/70] fix: FsSink.Append drops the identity of a part file
 while resuming it

The sidecar was truncated and rewritten although it already held the ETag. If the
process died in between, the next push of another version took the part, now
without an ETag, for its own and committed a mix of both.
---
 fsutil/resumable_fs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 37164c4..16dd2de 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -256,7 +256,16 @@ func (s *FsSink[Fsys, File]) Append(
 	}
 
 	// Persist ETag to sidecar before writing any data.
-	if info.ETag != "" {
+	// A part which is resumed must not lose its identity for even a moment: leave its sidecar alone.
+	storedETag := ""
+	if offset > 0 {
+		storedETag, err = s.readSidecar()
+		if err != nil {
+			_ = f.Close()
+			return WrapPathErr("read-sidecar", s.sidecarPath(), err)
+		}
+	}
+	if info.ETag != "" && info.ETag != storedETag {
 		if werr := s.writeSidecar(info.ETag); werr != nil {
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
-- 
2.43.0


From bcc2e6fab37e4b755f1e71d7116238d0114e02dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 35/70] fix: Push commits a truncated upload when the local
 file shrinks meanwhile

---
 fsutil/resumable.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 8cb1e58..340c4aa 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -521,6 +521,10 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	if aerr := sink.Append(ctx, info, offset, ctxR); aerr != nil {
 		return WrapPathErr("push-append", name, aerr)
 	}
+	if ctxR.n != actualSize-offset {
+		// The file got shorter while being read.
+		return WrapPathErr("push", name, io.ErrUnexpectedEOF)
+	}
 
 	// Step 6: commit.
 	return sink.Commit(ctx)
@@ -530,11 +534,14 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 type ctxReader struct {
 	ctx context.Context
 	r   io.Reader
+	n   int64 // bytes read so far
 }
 
 func (cr *ctxReader) Read(p []byte) (int, error) {
 	if err := cr.ctx.Err(); err != nil {
 		return 0, err
 	}
-	return cr.r.Read(p)
+	n, err := cr.r.Read(p)
+	cr.n += int64(n)
+	return n, err
 }
-- 
2.43.0


From c9bf57866313d31f552798dd0af3226d1ad1f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 36/70] fix: a transfer without an ETag keeps the sidecar of an
 earlier one

Starting over with content of unknown identity left the ETag of an earlier,
discarded part in place, so that a later transfer of that version resumed on top
of foreign bytes.
---
 fsutil/resumable.go    | 6 ++++++
 fsutil/resumable_fs.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 340c4aa..40c13a6 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -397,6 +397,12 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			_ = partFile.Close()
 			return WrapPathErr("write-sidecar", sidecarPath, serr)
 		}
+	} else if effectiveETag == "" && startAt == 0 {
+		// A sidecar left by an earlier attempt does not describe this content.
+		if rerr := fsys.Remove(sidecarPath); rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = partFile.Close()
+			return WrapPathErr("remove-sidecar", sidecarPath, rerr)
+		}
 	}
 
 	if startAt > 0 {
diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 16dd2de..fb41c91 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -270,6 +270,12 @@ func (s *FsSink[Fsys, File]) Append(
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
 		}
+	} else if info.ETag == "" && offset == 0 {
+		// A sidecar left by an earlier attempt does not describe this content.
+		if rerr := s.fsys.Remove(s.sidecarPath()); rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = f.Close()
+			return WrapPathErr("remove-sidecar", s.sidecarPath(), rerr)
+		}
 	}
 
 	_, copyErr := io.Copy(f, r)
-- 
2.43.0


From 83eb1a24cdde280e15795ab94b8a34fb27367366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 37/70] fix: creating "." in a synthetic filesystem reports
 ErrInvalid instead of ErrExist

Copying a tree to the root of a memfs failed: fsutil.CopyFsOption takes only ErrExist for a
directory which is already there.
---
 vroot/synthfs/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index 825277a..d9d81a3 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -150,6 +150,11 @@ func (s *state) resolveParent(
 		return nil, "", fsutil.WrapPathErr(op, name, err)
 	}
 	if slash == "." {
+		switch op {
+		case "mkdir", "symlink", "link", "open":
+			// As on OS-backed filesystems, "." is already there.
+			return nil, "", fsutil.WrapPathErr(op, name, fs.ErrExist)
+		}
 		// Creating/removing "." is never valid.
 		return nil, "", fsutil.WrapPathErr(op, name, fs.ErrInvalid)
 	}
-- 
2.43.0


From 4ac08155774f92fb627453c42309628a7da06090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 38/70] fix: copying setuid, setgid or sticky files fails on
 rooted destinations

*os.Root refuses to create files with other than permission bits. They are set by Chmod afterwards.
---
 fsutil/copy_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index d8f7c9b..81fc347 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -247,7 +247,7 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		defer srcFile.Close()
 
 		// Open destination file with O_TRUNC and O_CREATE
-		dstFile, err := dst.OpenFile(dstPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+		dstFile, err := dst.OpenFile(dstPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm.Perm())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From bf3b912ee24c1ad96d505856d4115255ee3cf050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 39/70] fix: Push takes the size of a file which replaced the
 opened one

---
 fsutil/resumable.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 40c13a6..ddbf3f2 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -480,11 +480,11 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	}
 	defer f.Close()
 
-	fi, err := fsys.Stat(name)
+	// Ask the opened file, not the name: it may have been replaced by now.
+	actualSize, err := f.Seek(0, io.SeekEnd)
 	if err != nil {
-		return WrapPathErr("stat", name, err)
+		return WrapPathErr("seek", name, err)
 	}
-	actualSize := fi.Size()
 
 	if info.Size >= 0 && info.Size != actualSize {
 		return WrapPathErr("push", name, ErrSizeMismatch)
@@ -516,10 +516,8 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	}
 
 	// Step 5: seek to offset and stream.
-	if offset > 0 {
-		if _, serr := f.Seek(offset, io.SeekStart); serr != nil {
-			return WrapPathErr("seek", name, serr)
-		}
+	if _, serr := f.Seek(offset, io.SeekStart); serr != nil {
+		return WrapPathErr("seek", name, serr)
 	}
 
 	lr := io.LimitReader(f, actualSize-offset)
-- 
2.43.0


From 4377f229f59f2dd7d3b5e5cceb92d344080095ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 40/70] fix: Pull accepts another version when the source
 changes before a restart

---
 fsutil/resumable.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index ddbf3f2..2a7cf4e 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -355,6 +355,11 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 				return WrapPathErr("open-source", name, err)
 			}
 			startAt = 0
+			// It may have changed between the two.
+			if expected.ETag != "" && srcInfo.ETag != "" && srcInfo.ETag != expected.ETag {
+				_ = r.Close()
+				return WrapPathErr("pull", name, ErrContentChanged)
+			}
 		}
 	}
 	defer r.Close()
-- 
2.43.0


From bb177af2ed2a63e8aa46cbd7cfd976894f1f394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 41/70] fix: tarfs: a link target with a trailing slash leads
 to directories only

---
 tarfs/entdir.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 4a15e6f..3049c82 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -110,8 +110,10 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 		isLastComponent bool
 	)
 	for len(rest) > 0 {
-		component, rest, _ = strings.Cut(rest, "/")
-		isLastComponent = len(rest) == 0
+		var more bool
+		component, rest, more = strings.Cut(rest, "/")
+		// A trailing slash demands a directory.
+		isLastComponent = !more
 
 		switch component {
 		case "", ".":
-- 
2.43.0


From 9a65b5c86366e80b364b249ca314bd818d4d9b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 42/70] fix: tarfs: entries without a body report the size of
 their header, even a negative one

---
 tarfs/headers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 15422e0..17a954d 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -110,6 +110,8 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
+				// Unlike archive/tar does for entries with a body, it lets any size pass, even negative ones.
+				hh.h.Size = 0
 			default:
 				// Not totally sure but in testdata tars there's typeflag value not defined in archive/tar
 				// nor there https://www.gnu.org/software/tar/manual/html_node/Standard.html
-- 
2.43.0


From 316779efdd20c85bd7db921cf5baf01dc50429e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 43/70] fix: synthfs: release the views beneath a directory
 that AddFile or AddFS overrides

---
 vroot/synthfs/add.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 30676a7..d344178 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -65,9 +65,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 	case AddDecisionOverride:
 		if existingNode != nil {
 			parent.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlinked()
-			}
+			r.removeSubtree(existingNode)
 		}
 		parent.addEntry(base, &file{
 			metadata: metadata{
@@ -185,9 +183,7 @@ func (r *Root) addFSWalk(
 		}
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlinked()
-			}
+			r.removeSubtree(existingNode)
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
 			return nil
@@ -215,9 +211,7 @@ func (r *Root) addFSWalk(
 		}
 		if existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlinked()
-			}
+			r.removeSubtree(existingNode)
 		}
 		dst.addEntry(base, &file{
 			metadata: metadata{
-- 
2.43.0


From cd0863a6cf308ee9f945d7618a99c53159413d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 44/70] fix: synthfs: AddFile and AddFS do not replace a
 dangling symlink by a directory

---
 vroot/synthfs/add.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index d344178..8dd0dd0 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -312,6 +312,10 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 			if perr != nil {
 				return nil, "", perr
 			}
+			if pParent.lookup(pBase) != nil {
+				// A dangling symlink is not replaced.
+				return nil, "", err
+			}
 			d := newDir(pBase, scaffoldDirMode&^r.st.opt.umask, r.st.opt.clock.Now(), pParent)
 			pParent.addEntry(pBase, d)
 			parent = d
-- 
2.43.0


From 1e5fde87faa3c325ba678b9360af904ac432c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 45/70] fix: synthfs: AddFS with AddDecisionKeep keeps what
 exists and adds no new leaves

---
 vroot/synthfs/add.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 8dd0dd0..03470e3 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -159,6 +159,10 @@ func (r *Root) addFSWalk(
 		case AddDecisionSkip:
 			return nil
 		case AddDecisionKeep:
+			if existingNode != nil && existingNode.kind() != kindDir {
+				// The existing leaf stays, leaving no place for the children.
+				return nil
+			}
 			// Reuse or create + descend.
 			d := r.materializeDir(dst, base, info, existingNode, false)
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
@@ -167,7 +171,7 @@ func (r *Root) addFSWalk(
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
 		}
 	case info.Mode()&fs.ModeSymlink != 0:
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
 			return nil
 		}
 		if rl == nil {
@@ -181,13 +185,10 @@ func (r *Root) addFSWalk(
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionOverride && existingNode != nil {
+		if existingNode != nil {
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			return nil
-		}
 		dst.addEntry(base, &symlink{
 			metadata: metadata{
 				name:    base,
@@ -198,17 +199,13 @@ func (r *Root) addFSWalk(
 		})
 		return nil
 	default: // regular file
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
 			return nil
 		}
 		view, err := NewFsView(fsys, src)
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			_ = view.Close()
-			return nil
-		}
 		if existingNode != nil {
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
-- 
2.43.0


From eed8d3380639bb1853e91103cf2e85ea3374910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 46/70] fix: synthfs: OpenFile does not deadlock when the view
 refuses to truncate

---
 vroot/synthfs/open.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index 9eefaff..e74087c 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -71,7 +71,9 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 			// Truncate through the open handle so aliased views (e.g. hard
 			// links) see the same shrink. Re-Allocate would desynchronize.
 			if terr := h.Truncate(0); terr != nil {
-				_ = h.Close()
+				// h.Close would lock state.mu again.
+				nd.refCount--
+				_ = h.(*fileHandle).inner.Close()
 				return nil, terr
 			}
 		}
-- 
2.43.0


From 727400b1ab13c5dc5013a056bdcaed3114ec2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 47/70] fix: synthfs: nothing is created in a removed directory
 through a root opened on it

---
 vroot/synthfs/add.go    | 6 ++++++
 vroot/synthfs/node.go   | 3 +++
 vroot/synthfs/open.go   | 2 +-
 vroot/synthfs/remove.go | 7 ++++++-
 vroot/synthfs/tree.go   | 3 +++
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 03470e3..685ea49 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -106,6 +106,9 @@ func (r *Root) AddFS(name string, fsys fs.FS, cb AddFunc) error {
 	// boundary itself is not a candidate for the resolver — we go straight
 	// to descending its children.
 	if slash == "." {
+		if r.boundary.removed {
+			return fsutil.WrapPathErr("AddFS", name, fs.ErrNotExist)
+		}
 		return r.descend(r.boundary, ".", fsys, rl, ".", cb)
 	}
 
@@ -318,6 +321,9 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 			parent = d
 		}
 	}
+	if parent.removed {
+		return nil, "", fsutil.WrapPathErr(op, name, fs.ErrNotExist)
+	}
 	return parent, base, nil
 }
 
diff --git a/vroot/synthfs/node.go b/vroot/synthfs/node.go
index 25767de..d245283 100644
--- a/vroot/synthfs/node.go
+++ b/vroot/synthfs/node.go
@@ -52,6 +52,9 @@ type dir struct {
 	// by basename. Both hold the same *list.Element values pointing to nodes.
 	ordered *list.List
 	index   map[string]*list.Element
+	// removed is set once the dir left the tree; a [Root] opened on it before
+	// must not add entries nobody could reach.
+	removed bool
 }
 
 type file struct {
diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e74087c..73aa157 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -33,7 +33,7 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 	}
 
 	res, err := r.findNode(name, true, "open")
-	if flag&os.O_CREATE != 0 && res.node == nil && res.parent != nil &&
+	if flag&os.O_CREATE != 0 && res.node == nil && res.parent != nil && !res.parent.removed &&
 		errors.Is(err, fs.ErrNotExist) {
 		// The last component is missing, be it that of name or of the dangling
 		// symlink it leads to.
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 90efec0..46a045a 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -18,13 +18,17 @@ func (r *Root) Remove(name string) error {
 		if target == nil {
 			return toPathErr("remove", name, fs.ErrNotExist)
 		}
-		if d, ok := target.(*dir); ok && d.ordered.Len() > 0 {
+		d, isDir := target.(*dir)
+		if isDir && d.ordered.Len() > 0 {
 			return toPathErr("remove", name, errdef.ENOTEMPTY)
 		}
 		if r.st.opt.disableOpenFileRemoval && target.meta().refCount > 0 {
 			return toPathErr("remove", name, errSharingViolation)
 		}
 		parent.removeEntry(base)
+		if isDir {
+			d.removed = true
+		}
 		if f, ok := target.(*file); ok {
 			f.unlinked()
 		}
@@ -81,6 +85,7 @@ func (r *Root) removeSubtree(n node) {
 		for k := range nd.index {
 			delete(nd.index, k)
 		}
+		nd.removed = true
 	case *file:
 		nd.unlinked()
 	}
diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index d9d81a3..94d5c09 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -171,6 +171,9 @@ func (s *state) resolveParent(
 	if !ok {
 		return nil, "", fsutil.WrapPathErr(op, name, syscall.ENOTDIR)
 	}
+	if pd.removed {
+		return nil, "", fsutil.WrapPathErr(op, name, fs.ErrNotExist)
+	}
 	return pd, base, nil
 }
 
-- 
2.43.0


From c7ce5b0a3d747f3550c698ed89dd22d7781bfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 48/70] fix: overlayfs: a layer's own symlink on the way to a
 name is not followed

Looking a name up in a deeper layer followed the symlinks that layer has
on the way, although the merged view shows a directory of a layer above
there: an entry of a directory outside of the layer (or elsewhere in it)
showed up in the merged view, could be read, and was copied up.
---
 vroot-adapter/overlayfs/merged.go | 36 +++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/vroot-adapter/overlayfs/merged.go b/vroot-adapter/overlayfs/merged.go
index 9715b85..5edfd5f 100644
--- a/vroot-adapter/overlayfs/merged.go
+++ b/vroot-adapter/overlayfs/merged.go
@@ -48,6 +48,13 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 	name = cleanName(name)
 	cut := s.cutFrom(name, from)
 	for i := from; i <= cut; i++ {
+		linked, err := s.linkedIn(i, name)
+		if err != nil {
+			return lookupResult{}, err
+		}
+		if linked {
+			return lookupResult{}, s.blockedErr(name)
+		}
 		path := s.layerPath(i, name)
 		info, err := s.layers[i].fsys.Lstat(path)
 		switch {
@@ -107,6 +114,28 @@ func (s *overlayState) blockedIn(i int, name string) (bool, error) {
 	}
 }
 
+// linkedIn reports whether layer i holds a symlink where name would have to be
+// reached through. To the merged view that is a non-directory like any other: a
+// name is resolved against the merged view, never against a single layer, so
+// what the layer's own link leads to — outside the layer, possibly — is not
+// what the layer holds at name.
+func (s *overlayState) linkedIn(i int, name string) (bool, error) {
+	for n := parentName(name); n != ""; n = parentName(n) {
+		info, err := s.layers[i].fsys.Lstat(s.layerPath(i, n))
+		switch {
+		case err == nil:
+			if info.Mode()&fs.ModeSymlink != 0 {
+				return true, nil
+			}
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR), errors.Is(err, vroot.ErrPathEscapes):
+			// Only a link further up may have led here.
+		default:
+			return false, err
+		}
+	}
+	return false, nil
+}
+
 // blockedErr names what a non-directory component left behind: the merged view
 // really does hold a non-directory where name's parent should be, or the parent
 // is a directory contributed by a layer above the one that blocked the search
@@ -144,6 +173,13 @@ func (s *overlayState) readDir(name string) ([]fs.DirEntry, error) {
 	seen := make(map[string]struct{})
 	cut := s.childCut(name)
 	for i := res.layer; i <= cut; i++ {
+		linked, err := s.linkedIn(i, name)
+		if err != nil {
+			return nil, err
+		}
+		if linked {
+			return sortEntries(entries), nil
+		}
 		path := s.layerPath(i, name)
 		info, err := s.layers[i].fsys.Lstat(path)
 		switch {
-- 
2.43.0


From 0dd2b5c2a23416c0e69f481442a17c1d12961269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 49/70] fix: overlayfs: the root of a plain layer is addressed
 as "."

It was addressed by the empty path, which os.Root refuses, so that an
overlay with a plain osfs.Root lower could not list its root.
---
 vroot-adapter/overlayfs/datasource.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/datasource.go b/vroot-adapter/overlayfs/datasource.go
index 606fac3..471f1a0 100644
--- a/vroot-adapter/overlayfs/datasource.go
+++ b/vroot-adapter/overlayfs/datasource.go
@@ -126,7 +126,7 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 // is handed — clean, slash-separated, relative to the content root — and the
 // answer is spelled with the separator the backend expects. A canonical layer
 // keeps its content under "merged/"; a plain layer's root is its content root,
-// so the name comes back as it went in.
+// so the name comes back as it went in, the root spelled ".".
 //
 // Content and staging are addressed as two paths in one fs rather than as two
 // sub-Fs views, because copy-up publishes by renaming a staged file onto its
@@ -134,6 +134,10 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 func (d *DataSource) ContentPath(name string) string {
 	name = filepath.FromSlash(name)
 	if !d.canonical {
+		if name == "" {
+			// The root itself; backends refuse an empty path.
+			return "."
+		}
 		return name
 	}
 	return filepath.Join(dirMerged, name)
-- 
2.43.0


From 0f800e9251d42707fed98763937dc57fe2f65da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 50/70] fix: overlayfs: a looping symlink in a lower layer does
 not fail lookups beneath a directory of the same name

---
 vroot-adapter/overlayfs/merged.go | 10 +++++++---
 vroot-adapter/overlayfs/rename.go |  7 +++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/vroot-adapter/overlayfs/merged.go b/vroot-adapter/overlayfs/merged.go
index 5edfd5f..66090ce 100644
--- a/vroot-adapter/overlayfs/merged.go
+++ b/vroot-adapter/overlayfs/merged.go
@@ -120,15 +120,19 @@ func (s *overlayState) blockedIn(i int, name string) (bool, error) {
 // what the layer's own link leads to — outside the layer, possibly — is not
 // what the layer holds at name.
 func (s *overlayState) linkedIn(i int, name string) (bool, error) {
-	for n := parentName(name); n != ""; n = parentName(n) {
+	// Shallowest first, so that no link of the layer is ever followed.
+	for _, n := range ancestry(parentName(name)) {
 		info, err := s.layers[i].fsys.Lstat(s.layerPath(i, n))
 		switch {
 		case err == nil:
 			if info.Mode()&fs.ModeSymlink != 0 {
 				return true, nil
 			}
-		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR), errors.Is(err, vroot.ErrPathEscapes):
-			// Only a link further up may have led here.
+			if !info.IsDir() {
+				return false, nil
+			}
+		case errors.Is(err, fs.ErrNotExist):
+			return false, nil
 		default:
 			return false, err
 		}
diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 2e37518..a47a43d 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -126,6 +126,13 @@ func (f *Fs) rename(oldname string, newname string) error {
 func (f *Fs) renameDirCheck(full string) error {
 	cut := f.state.childCut(full)
 	for i := 1; i <= cut; i++ {
+		linked, err := f.state.linkedIn(i, full)
+		if err != nil {
+			return err
+		}
+		if linked {
+			return nil
+		}
 		switch _, err := f.state.layers[i].fsys.Lstat(f.state.layerPath(i, full)); {
 		case err == nil:
 			return errCrossDevice
-- 
2.43.0


From bd0041bd90e32e25369219b6a4c34203d228cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 51/70] fix: overlayfs: copying a file up keeps the attributes
 of the directories above it

The directories above were created in the top with the attributes of the
layer the file comes from, though the merged view may show them from a
layer above that one.
---
 vroot-adapter/overlayfs/write.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index 64b26ce..2c55b56 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -58,6 +58,12 @@ func (f *Fs) copyUp(name string) error {
 	case res.layer == 0:
 		return nil
 	}
+	// The parents come from the layer the merged view shows each of them from,
+	// which need not be the one name resolved to: left to the policy they would
+	// take that one's attributes.
+	if err := f.copyUp(parentName(name)); err != nil {
+		return err
+	}
 	from, err := res.src.contentView()
 	if err != nil {
 		return err
-- 
2.43.0


From a75da447838999a06a535b67a07e0248e33f1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 52/70] fix: overlayfs: MkdirAll follows a symlink to a
 directory

It reported ENOTDIR where the last existing element of the path is a
symlink to a directory.
---
 vroot-adapter/overlayfs/mkdir.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/mkdir.go b/vroot-adapter/overlayfs/mkdir.go
index 219a6af..f6217fb 100644
--- a/vroot-adapter/overlayfs/mkdir.go
+++ b/vroot-adapter/overlayfs/mkdir.go
@@ -110,7 +110,7 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		return "", vroot.ErrPathEscapes
 	}
 	for head, rest := cleaned, ""; ; {
-		resolved, err := f.resolve(filepath.FromSlash(head), true)
+		resolved, err := f.resolve(filepath.FromSlash(head), false)
 		if err == nil {
 			return childName(resolved, rest), nil
 		}
@@ -119,7 +119,7 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		}
 		i := strings.LastIndexByte(head, '/')
 		if i < 0 {
-			return "", err
+			return childName(f.base, childName(head, rest)), nil
 		}
 		rest = childName(head[i+1:], rest)
 		head = head[:i]
-- 
2.43.0


From 5b9557f750a8d5dbefea3650f242f823cac87ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 53/70] fix: overlayfs: Stat names a file as it was asked for

---
 vroot-adapter/overlayfs/file.go |  9 +++++++++
 vroot-adapter/overlayfs/fs.go   | 23 +++++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index f794fe0..6fc60bf 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -94,6 +94,15 @@ func (f *trackedFile) Name() string {
 	return f.name
 }
 
+// Stat describes the file under the name it was opened by.
+func (f *trackedFile) Stat() (fs.FileInfo, error) {
+	info, err := f.File.Stat()
+	if err != nil {
+		return nil, err
+	}
+	return named(info, f.name), nil
+}
+
 // Close closes the handle and drops the count exactly once, whatever the wrapped
 // Close reports: a failed close is not a handle the caller can close again.
 func (f *trackedFile) Close() error {
diff --git a/vroot-adapter/overlayfs/fs.go b/vroot-adapter/overlayfs/fs.go
index 2104b02..69d81ec 100644
--- a/vroot-adapter/overlayfs/fs.go
+++ b/vroot-adapter/overlayfs/fs.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/fs"
 	"os"
+	"path/filepath"
 	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
@@ -153,7 +154,7 @@ func (f *Fs) Lstat(name string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, fsutil.WrapPathErr("lstat", name, err)
 	}
-	return res.info, nil
+	return named(res.info, name), nil
 }
 
 // Stat reports what name resolves to, name itself included when it is a symlink.
@@ -164,9 +165,27 @@ func (f *Fs) Stat(name string) (fs.FileInfo, error) {
 	if err != nil {
 		return nil, fsutil.WrapPathErr("stat", name, err)
 	}
-	return res.info, nil
+	return named(res.info, name), nil
 }
 
+// named is info under the name it was asked for, the way [os.Stat] reports it:
+// the layer describes what name resolved to, be it the target of a symlink or
+// the content root of a layer, by that one's own name.
+func named(info fs.FileInfo, name string) fs.FileInfo {
+	base := filepath.Base(name)
+	if info.Name() == base {
+		return info
+	}
+	return namedInfo{FileInfo: info, name: base}
+}
+
+type namedInfo struct {
+	fs.FileInfo
+	name string
+}
+
+func (i namedInfo) Name() string { return i.name }
+
 // ReadLink returns the target name holds, read from the layer name resolves to.
 func (f *Fs) ReadLink(name string) (string, error) {
 	f.state.mu.RLock()
-- 
2.43.0


From a74d9e7500c74a0885948dfbe7c1155b250d2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 54/70] fix: overlayfs: a create through a dangling symlink
 lands where the link points to

The file was created by the top's own walk, which fails where the directory
the link points into is only in a lower layer. O_EXCL now refuses every name
that exists, a directory or a symlink to one included, with ErrExist.
---
 vroot-adapter/overlayfs/open.go    | 11 +++---
 vroot-adapter/overlayfs/resolve.go | 61 ++++++++++++++++++++++++++++++
 2 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 39220df..d48c5af 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -23,14 +23,14 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	defer f.state.mu.Unlock()
 
 	creating := flag&os.O_CREATE != 0
-	full, err := f.resolve(name, false)
+	full, err := f.resolve(name, creating && flag&os.O_EXCL != 0)
 	if err != nil {
 		// A create names what may not be there yet, so the walk only has to reach
-		// the parent and the final component is taken as written.
+		// the parent of where it lands.
 		if !creating || !errors.Is(err, fs.ErrNotExist) {
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
-		full, err = f.resolve(name, true)
+		full, err = f.resolveCreate(name)
 		if err != nil {
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
@@ -39,12 +39,11 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	masked := false
 	res, err := f.state.lookup(full)
 	switch {
+	case err == nil && creating && flag&os.O_EXCL != 0:
+		return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
 	case err == nil && res.info.IsDir():
 		return nil, fsutil.WrapPathErr("open", name, syscall.EISDIR)
 	case err == nil:
-		if creating && flag&os.O_EXCL != 0 {
-			return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
-		}
 		// O_TRUNC copies the data up only to drop it again. Copying anyway keeps
 		// one gate for every write instead of a second path that has to get the
 		// mode, the times and the parents right on its own.
diff --git a/vroot-adapter/overlayfs/resolve.go b/vroot-adapter/overlayfs/resolve.go
index fd5bf55..c7ed1be 100644
--- a/vroot-adapter/overlayfs/resolve.go
+++ b/vroot-adapter/overlayfs/resolve.go
@@ -1,10 +1,13 @@
 package overlayfs
 
 import (
+	"errors"
 	"io/fs"
 	"path/filepath"
+	"strings"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 	"github.com/ngicks/go-fsys-helper/vroot"
 )
 
@@ -76,6 +79,64 @@ func (f *Fs) resolve(name string, skipLast bool) (string, error) {
 	return f.name(resolved)
 }
 
+// maxDangling bounds how many symlinks [Fs.resolveCreate] follows one after
+// another, the way the kernel bounds a walk.
+const maxDangling = 40
+
+// resolveCreate is [Fs.resolve] for a create whose name does not resolve: the
+// walk has to reach only the directory the file goes to. name may still be a
+// dangling symlink, and what is created then is what it points to.
+func (f *Fs) resolveCreate(name string) (string, error) {
+	for range maxDangling {
+		full, err := f.resolve(name, true)
+		if err != nil {
+			return "", err
+		}
+		res, err := f.state.lookup(full)
+		switch {
+		case errors.Is(err, fs.ErrNotExist):
+			return full, nil
+		case err != nil:
+			return "", err
+		case res.info.Mode()&fs.ModeSymlink == 0:
+			return full, nil
+		}
+		target, err := res.src.fsys.ReadLink(res.path)
+		if err != nil {
+			return "", err
+		}
+		dir := strings.TrimPrefix(strings.TrimPrefix(parentName(full), f.base), "/")
+		name, err = f.walkTarget(filepath.FromSlash(dir), filepath.FromSlash(target))
+		if err != nil {
+			return "", err
+		}
+	}
+	return "", errdef.ELOOP
+}
+
+// walkTarget walks target, read from a symlink in the real directory dir, up to
+// its final component, which is left as it is. As [fsutil.ResolvePath] does it
+// takes a ".." after a link for the parent of what the link points to.
+func (f *Fs) walkTarget(dir string, target string) (string, error) {
+	const sep = string(filepath.Separator)
+	if filepath.IsAbs(target) || strings.HasPrefix(target, sep) {
+		return "", vroot.ErrPathEscapes
+	}
+	for {
+		component, rest, more := strings.Cut(target, sep)
+		next := filepath.Join(dir, component)
+		if !more {
+			return next, nil
+		}
+		target = rest
+		resolved, err := fsutil.ResolvePath(resolver{f}, next, false)
+		if err != nil {
+			return "", err
+		}
+		dir = resolved
+	}
+}
+
 // locate is the step every read shares: resolve name over the merged view, then
 // look up where it lands. It reports the resolved name as well — the spelling
 // the masking state, and with it the open-handle count, is keyed by. The caller
-- 
2.43.0


From cd9b40d6d7acf0af77b237a235095f097c54fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 55/70] fix: overlayfs: a crash during Rename does not bring
 masked lower content back

The marks were recorded after the top's rename: interrupted in between, the
lower version of the old name was shown again, and under a moved directory
the lower content a removal had masked.
---
 vroot-adapter/overlayfs/rename.go | 49 +++++++++++++++++++++----------
 vroot-adapter/overlayfs/state.go  | 26 +++++++++++-----
 2 files changed, 52 insertions(+), 23 deletions(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index a47a43d..0a0bf02 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -77,19 +77,9 @@ func (f *Fs) rename(oldname string, newname string) error {
 		return err
 	}
 
-	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
-		return err
-	}
-
-	// Whatever stood at the new name is gone, and the marks describing it go with
-	// it — the whiteout a removal there left included, which is what lets a name
-	// be renamed onto one that was deleted.
-	if err := f.state.clearSubtree(newFull); err != nil {
-		return err
-	}
-	if err := f.state.renameSubtree(oldFull, newFull); err != nil {
-		return err
-	}
+	// The masking goes on before the move: whatever it hides is shadowed by the
+	// top or not shown at either name as yet. The other order leaves a window in
+	// which a crash brings back the lower content it is there to hide.
 	if oldRes.info.IsDir() {
 		// The reference's create_missing_whiteouts, in the store's own terms: it
 		// walks the layers below at the destination and drops a whiteout file
@@ -103,13 +93,42 @@ func (f *Fs) rename(oldname string, newname string) error {
 		if err := f.state.setOpaque(newFull); err != nil {
 			return err
 		}
+		// The opaque mark stands in for every mark under the empty directory the
+		// move replaces.
+		if err := f.state.clearUnder(newFull); err != nil {
+			return err
+		}
+		if err := f.state.renameSubtree(oldFull, newFull); err != nil {
+			return err
+		}
 	}
 	if maskOld {
 		// setWhiteout drops the old name's own opaque mark and everything recorded
 		// under it, which renameSubtree has already moved out of the way. A
 		// whiteout at the new name is not needed however the layers below stand:
-		// the top now holds content there, and content in the top shadows them.
-		return f.state.setWhiteout(oldFull)
+		// the top is about to hold content there, and content in the top shadows
+		// them.
+		if err := f.state.setWhiteout(oldFull); err != nil {
+			return err
+		}
+	}
+
+	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
+		return err
+	}
+
+	// Whatever stood at the new name is gone, and the marks describing it go with
+	// it — the whiteout a removal there left included, which is what lets a name
+	// be renamed onto one that was deleted.
+	if oldRes.info.IsDir() {
+		if err := f.unmask(newFull); err != nil {
+			return err
+		}
+	} else if err := f.state.clearSubtree(newFull); err != nil {
+		return err
+	}
+	if maskOld {
+		return nil
 	}
 	return f.state.clearSubtree(oldFull)
 }
diff --git a/vroot-adapter/overlayfs/state.go b/vroot-adapter/overlayfs/state.go
index badecbd..b855b47 100644
--- a/vroot-adapter/overlayfs/state.go
+++ b/vroot-adapter/overlayfs/state.go
@@ -191,19 +191,29 @@ func (s *overlayState) maskedUnder(dir string) (whiteouts []string, opaques []st
 // the branch where no whiteout is recorded and so nothing prunes for us.
 func (s *overlayState) clearSubtree(name string) error {
 	name = cleanName(name)
-	whiteouts, opaques := s.maskedUnder(name)
-	for _, n := range append(whiteouts, name) {
-		if _, ok := s.masks[0].whiteout[n]; !ok {
-			continue
+	if err := s.clearUnder(name); err != nil {
+		return err
+	}
+	if _, ok := s.masks[0].whiteout[name]; ok {
+		if err := s.clearWhiteout(name); err != nil {
+			return err
 		}
+	}
+	if _, ok := s.masks[0].opaque[name]; ok {
+		return s.clearOpaque(name)
+	}
+	return nil
+}
+
+// clearUnder is [overlayState.clearSubtree] leaving out the marks on dir itself.
+func (s *overlayState) clearUnder(dir string) error {
+	whiteouts, opaques := s.maskedUnder(cleanName(dir))
+	for _, n := range whiteouts {
 		if err := s.clearWhiteout(n); err != nil {
 			return err
 		}
 	}
-	for _, n := range append(opaques, name) {
-		if _, ok := s.masks[0].opaque[n]; !ok {
-			continue
-		}
+	for _, n := range opaques {
 		if err := s.clearOpaque(n); err != nil {
 			return err
 		}
-- 
2.43.0


From 7ab31b63e95ad0925e52319a9665e7a60aaaee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 56/70] fix: overlayfs: copying a directory up keeps its sticky
 bit

---
 vroot-adapter/overlayfs/copyup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/copyup.go b/vroot-adapter/overlayfs/copyup.go
index f1b776c..9150bce 100644
--- a/vroot-adapter/overlayfs/copyup.go
+++ b/vroot-adapter/overlayfs/copyup.go
@@ -214,7 +214,7 @@ func (p *CopyUpPolicyWork) materializeParents(
 // info.ModTime() for want of anything better — [fs.FileInfo] reports no access
 // time portably.
 func copyAttrs(fsys vroot.Fs[vroot.File], path string, info fs.FileInfo) {
-	_ = fsys.Chmod(path, info.Mode().Perm())
+	_ = fsys.Chmod(path, info.Mode()&(fs.ModePerm|fs.ModeSticky))
 	_ = fsys.Chtimes(path, info.ModTime(), info.ModTime())
 }
 
-- 
2.43.0


From e1ba277b6ff3364f378de94f0ae37c15f253de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 57/70] fix: overlayfs: a closed directory handle refuses Seek
 and Sync

---
 vroot-adapter/overlayfs/file.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index 6fc60bf..611762a 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -154,7 +154,14 @@ func (d *mergedDir) Stat() (fs.FileInfo, error) {
 
 // Sync reports success without reaching the layer, as synthfs does: a directory
 // handle here is a listing and a cursor, and there is nothing of it to flush.
-func (d *mergedDir) Sync() error { return nil }
+func (d *mergedDir) Sync() error {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	if d.closed {
+		return fsutil.WrapPathErr("sync", d.name, fs.ErrClosed)
+	}
+	return nil
+}
 
 func (d *mergedDir) Close() error {
 	d.mu.Lock()
@@ -258,6 +265,9 @@ func (d *mergedDir) Readdirnames(n int) ([]string, error) {
 func (d *mergedDir) Seek(offset int64, whence int) (int64, error) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
+	if d.closed {
+		return 0, fsutil.WrapPathErr("seek", d.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset != 0 {
-- 
2.43.0


From cf6e53a4ef5a31399e9976fe03414858c47d9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 58/70] fix: sftpfs: Remove(".") does not remove the base
 directory

---
 vroot-adapter/sftpfs/sftpfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index aab4ee8..03bf8ab 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -227,6 +227,10 @@ func (s *SftpFs) Remove(name string) error {
 	if err != nil {
 		return fsutil.WrapPathErr("remove", name, err)
 	}
+	if abs == s.base {
+		// rmdir would take an empty base directory away.
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	return s.client.Remove(abs)
 }
 
-- 
2.43.0


From 92e330520410e5b9e965eac0e6748bb9e61ce3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 59/70] fix: sftpfs: ReadDir returns entries sorted by name

---
 vroot-adapter/sftpfs/sftpfs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 03bf8ab..7e53ab7 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -7,6 +7,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -365,6 +366,7 @@ func (s *SftpFs) ReadDir(name string) ([]fs.DirEntry, error) {
 	for i, fi := range fis {
 		out[i] = sftpDirEntry{fi: fi}
 	}
+	slices.SortFunc(out, func(a, b fs.DirEntry) int { return strings.Compare(a.Name(), b.Name()) })
 	return out, nil
 }
 
-- 
2.43.0


From 0204c0c22fe05d95654ef2e2a31c795eefabd6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 60/70] fix: sftpfs: opening an existing file with O_CREATE
 leaves its mode alone

---
 vroot-adapter/sftpfs/sftpfs.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 7e53ab7..a2ad42c 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -184,7 +184,7 @@ func (s *SftpFs) Open(name string) (vroot.File, error) {
 }
 
 // OpenFile implements [vroot.Fs]. perm is best-effort applied via
-// Chmod after the open succeeds.
+// Chmod after the open created the file.
 //
 // O_APPEND is honored by seeking to end of file after open because pkg/sftp's
 // stock Server does not implement append-on-write — it ignores SSH_FXF_APPEND
@@ -194,6 +194,12 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 	if err != nil {
 		return nil, fsutil.WrapPathErr("open", name, err)
 	}
+	// perm is for a file that is created here: an existing one keeps its mode.
+	setPerm := perm != 0 && flag&os.O_CREATE != 0
+	if setPerm && flag&os.O_EXCL == 0 {
+		_, err := s.client.Stat(abs)
+		setPerm = isSftpNotExist(err)
+	}
 	f, err := s.client.OpenFile(abs, flag)
 	if err != nil {
 		return nil, mapSftpErr(err)
@@ -204,7 +210,7 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
 	}
-	if perm != 0 && (flag&os.O_CREATE != 0) {
+	if setPerm {
 		_ = s.client.Chmod(abs, perm)
 	}
 	return &sftpFile{File: f, client: s.client}, nil
-- 
2.43.0


From 04d273fea78b444ca3d05bbcfcc22496e6ba81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 61/70] fix: sftpfs: MkdirAll applies perm to every directory
 it creates and to no other

---
 vroot-adapter/sftpfs/sftpfs.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index a2ad42c..f912ce5 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -166,7 +166,32 @@ func (s *SftpFs) MkdirAll(name string, perm fs.FileMode) error {
 	if err != nil {
 		return fsutil.WrapPathErr("mkdir", name, err)
 	}
-	if err := s.client.MkdirAll(abs); err != nil {
+	return s.mkdirAll(abs, perm)
+}
+
+// mkdirAll creates the already-resolved peer-side path abs and its missing
+// parents, following os.MkdirAll's structure. perm goes to the directories
+// created here only.
+func (s *SftpFs) mkdirAll(abs string, perm fs.FileMode) error {
+	fi, err := s.client.Stat(abs)
+	if err == nil {
+		if fi.IsDir() {
+			return nil
+		}
+		return fsutil.WrapPathErr("mkdir", abs, syscall.ENOTDIR)
+	}
+
+	if parent := path.Dir(abs); parent != abs {
+		if err := s.mkdirAll(parent, perm); err != nil {
+			return err
+		}
+	}
+
+	if err := s.client.Mkdir(abs); err != nil {
+		if fi, lerr := s.client.Lstat(abs); lerr == nil && fi.IsDir() {
+			// someone else created it.
+			return nil
+		}
 		return err
 	}
 	if perm != 0 {
-- 
2.43.0


From 611e3b925de8213aed0bae29243b48c3b46495d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 62/70] fix: sftpfs: seeking a directory handle to its start
 rewinds its listing

---
 vroot-adapter/sftpfs/sftpfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index f912ce5..822053d 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -436,6 +436,18 @@ func (f *sftpFile) Sync() error {
 	return err
 }
 
+// Seek moves the offset of the file. Seeking a directory to its start makes
+// the next read fetch the listing anew.
+func (f *sftpFile) Seek(offset int64, whence int) (int64, error) {
+	n, err := f.File.Seek(offset, whence)
+	if err == nil && n == 0 && whence == io.SeekStart {
+		f.dirMu.Lock()
+		f.dirLoaded, f.dirEntries, f.dirErr = false, nil, nil
+		f.dirMu.Unlock()
+	}
+	return n, err
+}
+
 // loadDir fetches the directory listing once and caches it for paginated
 // readers below.
 func (f *sftpFile) loadDir() error {
-- 
2.43.0


From 698c3c7d974f52ec26ae2b3de74310d67e7c6d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 63/70] fix: sftpfs: a closed directory handle lists nothing

---
 vroot-adapter/sftpfs/sftpfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 822053d..ab35f15 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -409,6 +409,7 @@ type sftpFile struct {
 	client *sftp.Client
 
 	dirMu      sync.Mutex
+	closed     bool
 	dirEntries []os.FileInfo
 	dirLoaded  bool
 	dirErr     error
@@ -436,6 +437,14 @@ func (f *sftpFile) Sync() error {
 	return err
 }
 
+// Close closes the file; its directory listing is not readable afterwards.
+func (f *sftpFile) Close() error {
+	f.dirMu.Lock()
+	f.closed = true
+	f.dirMu.Unlock()
+	return f.File.Close()
+}
+
 // Seek moves the offset of the file. Seeking a directory to its start makes
 // the next read fetch the listing anew.
 func (f *sftpFile) Seek(offset int64, whence int) (int64, error) {
@@ -453,6 +462,9 @@ func (f *sftpFile) Seek(offset int64, whence int) (int64, error) {
 func (f *sftpFile) loadDir() error {
 	f.dirMu.Lock()
 	defer f.dirMu.Unlock()
+	if f.closed {
+		return fsutil.WrapPathErr("readdir", f.Name(), fs.ErrClosed)
+	}
 	if f.dirLoaded {
 		return f.dirErr
 	}
-- 
2.43.0


From 5fc0fd6393972f7d2ee7cb14a8dc2a5cb3263f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:17 +0000
Subject: [PATCH 64/70] fix: overlayfs: a page size near the largest int does
 not panic a listing under way

---
 vroot-adapter/overlayfs/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index 611762a..1ba9b6e 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -212,7 +212,7 @@ func (d *mergedDir) readEntries(n int) ([]fs.DirEntry, error) {
 		return nil, io.EOF
 	}
 	end := len(d.entries)
-	if n > 0 && d.cursor+n < end {
+	if n > 0 && n < end-d.cursor {
 		end = d.cursor + n
 	}
 	out := slices.Clone(d.entries[d.cursor:end])
-- 
2.43.0


From c04697a876e1be2642e15b7d783af0ab0126e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:41 +0000
Subject: [PATCH 65/70] fix: synthfs: growing a file past any possible length
 is refused, not a panic

---
 vroot/synthfs/view_mem_buf.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 286edee..4f72db9 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -95,7 +95,9 @@ func (b *memBuf) writeAtLocked(p []byte, off int64) (int, error) {
 	}
 	end := int(off) + len(p)
 	if end > len(b.content) {
-		b.grow(end - len(b.content))
+		if err := b.grow(end - len(b.content)); err != nil {
+			return 0, err
+		}
 	}
 	n := copy(b.content[int(off):], p)
 	b.modTime = b.clock.Now()
@@ -109,20 +111,29 @@ func (b *memBuf) truncate(size int64) error {
 	b.mu.Lock()
 	defer b.mu.Unlock()
 	if grow := int(size) - len(b.content); grow > 0 {
-		b.grow(grow)
+		if err := b.grow(grow); err != nil {
+			return err
+		}
 	}
 	b.content = b.content[:size:size]
 	b.modTime = b.clock.Now()
 	return nil
 }
 
-// grow extends content by `by` bytes. Caller holds b.mu (write).
-func (b *memBuf) grow(by int) {
+// grow extends content by `by` bytes. A length no slice can have is refused.
+// Caller holds b.mu (write).
+func (b *memBuf) grow(by int) (err error) {
 	if cap(b.content)-len(b.content) >= by {
 		b.content = b.content[:len(b.content)+by]
-		return
+		return nil
 	}
+	defer func() {
+		if recover() != nil {
+			err = fmt.Errorf("synthfs: file too large: %w", syscall.EINVAL)
+		}
+	}()
 	b.content = append(b.content, make([]byte, by)...)
+	return nil
 }
 
 // memHandle is one stateful handle into a [memBuf]. Multiple handles can
-- 
2.43.0


From 1b6d6ebd1a784939fe248207d2d87bb6f36df702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 66/70] fix: synthfs: refuse mode bits beyond the permissions,
 as *os.Root does

OpenFile put them into the node, so that a file could claim to be a
directory, a symlink or setuid; Mkdir dropped them.
---
 vroot/synthfs/mkdir.go | 6 ++++++
 vroot/synthfs/open.go  | 3 +++
 vroot/synthfs/root.go  | 9 +++++++++
 3 files changed, 18 insertions(+)

diff --git a/vroot/synthfs/mkdir.go b/vroot/synthfs/mkdir.go
index 73f28e4..5b63a6f 100644
--- a/vroot/synthfs/mkdir.go
+++ b/vroot/synthfs/mkdir.go
@@ -10,12 +10,18 @@ import (
 )
 
 func (r *Root) Mkdir(name string, perm fs.FileMode) error {
+	if err := checkPerm("mkdir", name, perm); err != nil {
+		return err
+	}
 	return r.withWriteLock(func() error {
 		return r.mkdirLocked(name, perm)
 	})
 }
 
 func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
+	if err := checkPerm("mkdir", name, perm); err != nil {
+		return err
+	}
 	slash, err := normalize(name)
 	if err != nil {
 		return toPathErr("mkdir", name, err)
diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index 73aa157..1c3f498 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -19,6 +19,9 @@ func (r *Root) Open(name string) (vroot.File, error) {
 }
 
 func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
+	if err := checkPerm("open", name, perm); err != nil {
+		return nil, err
+	}
 	r.st.mu.Lock()
 	defer r.st.mu.Unlock()
 
diff --git a/vroot/synthfs/root.go b/vroot/synthfs/root.go
index 928da89..52488d4 100644
--- a/vroot/synthfs/root.go
+++ b/vroot/synthfs/root.go
@@ -95,6 +95,15 @@ func toPathErr(op, name string, err error) error {
 	return fsutil.WrapPathErr(op, name, err)
 }
 
+// checkPerm mirrors *os.Root, which refuses to create entries with mode bits
+// beyond [fs.ModePerm].
+func checkPerm(op, name string, perm fs.FileMode) error {
+	if perm&^fs.ModePerm != 0 {
+		return toPathErr(op, name, errors.New("unsupported file mode"))
+	}
+	return nil
+}
+
 // endsWithDot mirrors os.RemoveAll's leading check: a trailing "." or "/."
 // must return EINVAL before any filepath.Clean rewrites it.
 func endsWithDot(name string) bool {
-- 
2.43.0


From 5c1f8e8c0bfc92a00a35aa75ea9d67ca002e0db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:14 +0000
Subject: [PATCH 67/70] fix: httprange, fileserver: an opaque URL is not shown
 in errors

---
 stream/fileserver/client.go | 1 +
 stream/httprange/redact.go  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 74a6bfc..14e3eac 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -131,6 +131,7 @@ func redactURLError(err error) error {
 	// Parse and redact the URL embedded in the *url.Error.
 	redacted := "[redacted url]"
 	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
+		u.Opaque = "" // may hold any of the others, undivided
 		u.User = nil
 		u.RawQuery = ""
 		u.Fragment = ""
diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 7632cf8..b35921b 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -15,9 +15,11 @@ const redactedURLPlaceholder = "[redacted url]"
 var errMalformedURL = errors.New("malformed url")
 
 // redactURL renders u as scheme, host and path only, dropping userinfo,
-// query and fragment.
+// query and fragment. An opaque URL, which may hold any of them undivided,
+// loses all but its scheme.
 func redactURL(u *url.URL) string {
 	redacted := *u
+	redacted.Opaque = ""
 	redacted.User = nil
 	redacted.RawQuery = ""
 	redacted.ForceQuery = false
-- 
2.43.0


From 5a20c9bc5954d513beb80cca94cff76070a63936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 68/70] fix: fileserver: a query in the base URL stays one
 instead of swallowing the object's name

---
 stream/fileserver/client.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 14e3eac..dfd1a46 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -91,15 +91,20 @@ func (c *HTTPClient) client() Doer {
 // objectURL returns the full URL for the named object.
 // Name segments are path-escaped individually so that slashes in a name
 // component remain escaped (i.e. a name "a/b" becomes "…/a%2Fb", not
-// "…/a/b").
+// "…/a/b"). A query of the base, such as an access token, stays the query.
 func (c *HTTPClient) objectURL(name string) string {
-	base := c.BaseURL.String()
+	base, query := *c.BaseURL, ""
+	if base.RawQuery != "" {
+		query = "?" + base.RawQuery
+	}
+	base.RawQuery, base.ForceQuery = "", false
+	base.Fragment, base.RawFragment = "", ""
 	// Strip trailing slash from base, then append /<escaped-name>.
-	base = strings.TrimRight(base, "/")
+	prefix := strings.TrimRight(base.String(), "/")
 	// Escape each segment of the name independently: a name that itself
 	// contains '/' is a single logical name, not a path hierarchy.
 	escaped := url.PathEscape(name)
-	return base + "/" + escaped
+	return prefix + "/" + escaped + query
 }
 
 // applyHeaders copies the static Header onto req.
-- 
2.43.0


From 61df6c5c65519e96f92cc4ed04f665bcccece620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:36 +0000
Subject: [PATCH 69/70] fix: fileserver: a range starting elsewhere than asked
 for is refused

---
 stream/fileserver/client.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index dfd1a46..3cdcb18 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -164,7 +164,8 @@ func redactURLError(err error) error {
 // accepted. When offset > 0 a "Range: bytes=<offset>-" header is sent and a
 // 206 response is required — if the server returns 200 (meaning it ignored the
 // range) Get returns an error of the form "server ignored range request" so
-// that callers can detect servers that do not support byte ranges.
+// that callers can detect servers that do not support byte ranges. A 206 of a
+// range starting elsewhere than at offset is an error as well.
 //
 // 404 and 410 responses are mapped to errors that wrap [fs.ErrNotExist].
 func (c *HTTPClient) Get(
@@ -209,7 +210,11 @@ func (c *HTTPClient) Get(
 
 	case http.StatusPartialContent: // 206
 		// Total size is in Content-Range: bytes <from>-<to>/<total>.
-		total, err := parseTotalFromContentRange(resp.Header.Get("Content-Range"))
+		contentRange := resp.Header.Get("Content-Range")
+		total, err := parseTotalFromContentRange(contentRange)
+		if err == nil && !startsAt(contentRange, offset) {
+			err = fmt.Errorf("%q does not start at offset %d", contentRange, offset)
+		}
 		if err != nil {
 			_, _ = io.Copy(io.Discard, resp.Body)
 			_ = resp.Body.Close()
@@ -335,3 +340,11 @@ func parseTotalFromContentRange(s string) (int64, error) {
 	}
 	return total, nil
 }
+
+// startsAt reports whether a Content-Range header value of the form
+// "bytes <from>-<to>/<total>" is of a range that starts at offset.
+func startsAt(s string, offset int64) bool {
+	from, _, _ := strings.Cut(strings.TrimPrefix(s, "bytes "), "-")
+	start, err := strconv.ParseInt(from, 10, 64)
+	return err == nil && start == offset
+}
-- 
2.43.0


From cf63d4cbdd951d553f690fa0d17c9f966ddfd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:48 +0000
Subject: [PATCH 70/70] fix: overlayfs: a copy-up keeps the opaque mark a
 failed rename left on a lower directory

---
 vroot-adapter/overlayfs/write.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index 2c55b56..6416fd1 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -40,9 +40,10 @@ func (f *Fs) topPath(name string) string { return f.state.layerPath(0, name) }
 //
 // Masking is not the policy's business and barely this method's: a copy-up
 // changes which layer a name is read from, not whether it is visible, so what
-// masked it before masks it after. The one exception is an opaque mark left over
-// on a name the top did not hold, which would start hiding the lower children of
-// a directory that was merged a moment ago.
+// masked it before masks it after. That includes an opaque mark on a directory
+// the top did not hold, as a rename onto it that failed half way leaves behind:
+// it hides what the lower layers hold there already, in place of the whiteouts
+// the rename cleared.
 //
 // The caller holds the write lock.
 func (f *Fs) copyUp(name string) error {
@@ -68,13 +69,7 @@ func (f *Fs) copyUp(name string) error {
 	if err != nil {
 		return err
 	}
-	if err := f.policy.CopyUp(from, f.top(), name); err != nil {
-		return err
-	}
-	if _, opaque := f.state.marks(0, name); opaque {
-		return f.state.clearOpaque(name)
-	}
-	return nil
+	return f.policy.CopyUp(from, f.top(), name)
 }
 
 // ensureParent establishes what a create needs before it writes: name's parent is
-- 
2.43.0

