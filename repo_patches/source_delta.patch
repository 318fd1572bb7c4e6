From bfef111de9b26b7c1a6d76979d35f262b85c02e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 01/25] fix: keep unrecorded checksums unrecorded when decoding
 FileInfo from JSON

---
 apt/fileinfo.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 7d4d0ee..892e1ab 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -139,6 +139,15 @@ func (fi *FileInfo) MarshalJSON() ([]byte, error) {
 	return json.Marshal(&fij)
 }
 
+// decodeChecksum decodes a hexadecimal checksum in JSON.
+// An empty string stands for a checksum that is not recorded.
+func decodeChecksum(s string) ([]byte, error) {
+	if s == "" {
+		return nil, nil
+	}
+	return hex.DecodeString(s)
+}
+
 // UnmarshalJSON implements json.Unmarshaler
 func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	var fij fileInfoJSON
@@ -147,15 +156,15 @@ func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	}
 	fi.path = fij.Path
 	fi.size = uint64(fij.Size)
-	md5sum, err := hex.DecodeString(fij.MD5Sum)
+	md5sum, err := decodeChecksum(fij.MD5Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha1sum, err := hex.DecodeString(fij.SHA1Sum)
+	sha1sum, err := decodeChecksum(fij.SHA1Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha256sum, err := hex.DecodeString(fij.SHA256Sum)
+	sha256sum, err := decodeChecksum(fij.SHA256Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-- 
2.43.0


From 1a60df71b015b8a6e1d63ad5f0baba69d189f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 02/25] fix: skip extra empty lines between paragraphs in the
 Debian control parser

---
 apt/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apt/parser.go b/apt/parser.go
index 2f7bcb0..c35841a 100644
--- a/apt/parser.go
+++ b/apt/parser.go
@@ -63,6 +63,11 @@ L:
 	for p.s.Scan() {
 		switch l := p.s.Text(); {
 		case len(l) == 0:
+			if len(ret) == 0 {
+				// Paragraphs may be separated by several empty lines.
+				p.lastField = ""
+				continue
+			}
 			break L
 		case l[0] == '#':
 			continue
-- 
2.43.0


From 0ce9c136eabfa62b07e8cc8d67d903b66e976ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 03/25] fix: refuse cache item paths leading out of the cache
 directory

---
 cacher/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cacher/storage.go b/cacher/storage.go
index d54033e..399575f 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -216,6 +217,8 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 		return ErrBadPath
 	case p == ".":
 		return ErrBadPath
+	case p == "..", strings.HasPrefix(p, "../"):
+		return ErrBadPath
 	}
 
 	destpath := filepath.Join(cm.dir, p+fileSuffix)
-- 
2.43.0


From 2a0a588c59dbe0d01878da096489144643ad058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 04/25] fix: refuse . and .. as URL map prefixes

---
 cacher/urlmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cacher/urlmap.go b/cacher/urlmap.go
index 7def75d..7ffc772 100644
--- a/cacher/urlmap.go
+++ b/cacher/urlmap.go
@@ -22,7 +22,7 @@ type URLMap map[string]*url.URL
 
 // Register registeres a prefix for a remote URL.
 func (um *URLMap) Register(prefix string, u *url.URL) error {
-	if !validPrefix.MatchString(prefix) {
+	if !validPrefix.MatchString(prefix) || prefix == "." || prefix == ".." {
 		return ErrInvalidPrefix
 	}
 
-- 
2.43.0


From a43442bae1e980787e3a3697a9e9268bba86b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 05/25] fix: handle request paths that are empty or have extra
 leading slashes

---
 cacher/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cacher/handler.go b/cacher/handler.go
index 2aaa68d..9126385 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -24,7 +24,7 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	p := path.Clean(r.URL.Path[1:])
+	p := path.Clean("/" + r.URL.Path)[1:]
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("request path", map[string]interface{}{
-- 
2.43.0


From f94097a03df5406053addcef43812842d9cc49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 06/25] fix: keep the cache within its capacity even if loading
 fails

---
 cacher/storage.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cacher/storage.go b/cacher/storage.go
index 399575f..f919a04 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -186,14 +186,12 @@ func (cm *Storage) Load() error {
 		return nil
 	}
 
-	if err := filepath.Walk(cm.dir, wf); err != nil {
-		return err
-	}
+	err := filepath.Walk(cm.dir, wf)
 	heap.Init(cm)
 
 	cm.maint()
 
-	return nil
+	return err
 }
 
 // TempFile creates a new temporary file
-- 
2.43.0


From 3a1599f7994b81ece4ca4a2e2dad057af7dc86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 07/25] fix: do not change the accounted size of a cached item
 on lookup

---
 cacher/storage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cacher/storage.go b/cacher/storage.go
index f919a04..7b2c902 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -284,6 +284,10 @@ func calcChecksum(dir string, e *entry) error {
 	if err != nil {
 		return err
 	}
+	if uint64(len(data)) != e.Size() {
+		// the file is not the one that was accounted for.
+		return ErrNotFound
+	}
 	e.FileInfo.CalcChecksums(data)
 	return nil
 }
-- 
2.43.0


From 25dd4e918675523f093c26f37b8a626cc0d0e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 08/25] fix: refuse a negative check_interval or max_conns

---
 cacher/cacher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 82a486c..1ea43d5 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -59,9 +59,12 @@ type Cacher struct {
 
 // NewCacher constructs Cacher.
 func NewCacher(config *Config) (*Cacher, error) {
-	if config.CheckInterval == 0 {
+	if config.CheckInterval <= 0 {
 		return nil, errors.New("invaild check_interval")
 	}
+	if config.MaxConns < 0 {
+		return nil, errors.New("max_conns must be >= 0")
+	}
 	checkInterval := time.Duration(config.CheckInterval) * time.Second
 	cachePeriod := time.Duration(config.CachePeriod) * time.Second
 
-- 
2.43.0


From 308ec319c3d0b9a34289e44cc5c36732053ec79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 09/25] fix: start even if a cached meta data file is broken

---
 cacher/cacher.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 1ea43d5..dc38c0a 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -128,18 +128,24 @@ func NewCacher(config *Config) (*Cacher, error) {
 
 	metas := meta.ListAll()
 	for _, fi := range metas {
+		t := strings.SplitN(fi.Path(), "/", 2)
+		if len(t) != 2 || !apt.IsMeta(t[1]) {
+			// not stored by Cacher.
+			continue
+		}
 		f, err := meta.Lookup(fi)
 		if err != nil {
 			return nil, errors.Wrap(err, "meta.Lookup")
 		}
-		t := strings.SplitN(fi.Path(), "/", 2)
-		if len(t) != 2 {
-			panic("there should always be a prefix!")
-		}
 		fil, _, err := apt.ExtractFileInfo(t[1], f)
 		f.Close()
 		if err != nil {
-			return nil, errors.Wrap(err, "ExtractFileInfo("+fi.Path()+")")
+			// broken meta data are stored as is, so accept them here too.
+			log.Error("invalid meta data", map[string]interface{}{
+				"path":  fi.Path(),
+				"error": err.Error(),
+			})
+			continue
 		}
 		fil = addPrefix(t[0], fil)
 		for _, fi2 := range fil {
-- 
2.43.0


From 3e64b115c88cde5eab1ed1431cae2f87983ff1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 10/25] fix: fill Cacher.info before starting goroutines that
 use it

---
 cacher/cacher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index dc38c0a..a67e1bb 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -154,13 +154,18 @@ func NewCacher(config *Config) (*Cacher, error) {
 	}
 
 	// add meta files w/o checksums (Release, Release.gpg, and InRelease).
+	var added []string
 	for _, fi := range metas {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
 			c.info[p] = fi
-			c.maintMeta(p)
+			added = append(added, p)
 		}
 	}
+	// c.info must not be touched without the lock once goroutines are started.
+	for _, p := range added {
+		c.maintMeta(p)
+	}
 
 	return c, nil
 }
-- 
2.43.0


From e2ac2244e4cbf215bb92ee3d361b2b4f596fa85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 11/25] fix: do not record a download that was not stored as
 successful

---
 cacher/cacher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index a67e1bb..f4b5139 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -335,8 +335,8 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	}
 
 	defer closeRespBody(resp)
-	statusCode = resp.StatusCode
-	if statusCode != 200 {
+	if resp.StatusCode != http.StatusOK {
+		statusCode = resp.StatusCode
 		return
 	}
 
@@ -429,6 +429,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		}
 	}
 	c.info[p] = fi
+	statusCode = http.StatusOK
 	log.Info("downloaded and cached", map[string]interface{}{
 		"path": p,
 	})
-- 
2.43.0


From 105d4d6c37c755e4218bd84602583f619fc08d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 12/25] fix: do not download items larger than the cache again
 and again

---
 cacher/cacher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index f4b5139..fdcaa9c 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -381,6 +381,13 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		return
 	}
 
+	if storage.capacity > 0 && fi.Size() > storage.capacity {
+		log.Error("item is larger than the cache capacity", map[string]interface{}{
+			"path": p,
+		})
+		return
+	}
+
 	var fil []*apt.FileInfo
 
 	if t := strings.SplitN(path.Clean(p), "/", 2); len(t) == 2 && apt.IsMeta(t[1]) {
-- 
2.43.0


From 32a81389058459ec997d2a186430005b83628e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:42 +0000
Subject: [PATCH 13/25] fix: do not replace a newer file description with an
 outdated one

---
 cacher/cacher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index fdcaa9c..f1d7242 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -413,6 +413,15 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	c.fiLock.Lock()
 	defer c.fiLock.Unlock()
 
+	if valid != nil {
+		if cur, ok := c.info[p]; ok && !cur.Same(fi) {
+			log.Warn("downloaded data is outdated", map[string]interface{}{
+				"path": p,
+			})
+			return
+		}
+	}
+
 	// To keep consistency between Cacher and Storage so that
 	// both have the same set of FileInfo, storage.Insert need to be
 	// guarded by c.fiLock.
-- 
2.43.0


From bfa3f262911c0ce3329709d4e34eb8cd1f4ae93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 14/25] fix: do not wait forever for items whose prefix is no
 longer registered

---
 cacher/cacher.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index f1d7242..a97e886 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -230,9 +230,15 @@ func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
 			return
 		case <-ticker.C:
 			ch1 := c.Download(p, nil)
+			if ch1 == nil {
+				// the prefix is no longer registered.
+				return
+			}
 			if withGPG {
 				ch2 := c.Download(p+".gpg", nil)
-				<-ch2
+				if ch2 != nil {
+					<-ch2
+				}
 			}
 			<-ch1
 		}
-- 
2.43.0


From 43ccd7d5fd5a5f89585c38550605e1a934864507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 15/25] fix: answer 500 if an upstream status cannot be sent to
 clients

---
 cacher/cacher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index a97e886..5d6ca03 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -342,7 +342,10 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 
 	defer closeRespBody(resp)
 	if resp.StatusCode != http.StatusOK {
-		statusCode = resp.StatusCode
+		// http.ResponseWriter cannot send other codes as the final status.
+		if resp.StatusCode >= 200 {
+			statusCode = resp.StatusCode
+		}
 		return
 	}
 
-- 
2.43.0


From e15a64473d5cd6179f091f759fc331bb628033a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 16/25] fix: refuse repository paths that lead out of the
 mirror snapshot

---
 mirror/storage.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mirror/storage.go b/mirror/storage.go
index f4dd9aa..68f3c5e 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -112,9 +113,22 @@ func (s *Storage) Save() error {
 	return nil
 }
 
+// checkPath returns an error unless p is the path of something
+// inside the storage.
+func checkPath(p string) error {
+	p = filepath.Clean(p)
+	if p == "." || p == ".." || strings.HasPrefix(p, "../") {
+		return errors.New("bad path: " + p)
+	}
+	return nil
+}
+
 // StoreLink stores a hard link to a file into this storage.
 func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
+	if err := checkPath(p); err != nil {
+		return err
+	}
 
 	s.mu.Lock()
 	_, ok := s.info[p]
@@ -143,6 +157,11 @@ func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	md5p := fi.MD5SumPath()
 	sha1p := fi.SHA1Path()
 	sha256p := fi.SHA256Path()
+	for _, q := range []string{p, md5p, sha1p, sha256p} {
+		if err := checkPath(q); err != nil {
+			return err
+		}
+	}
 	fpl := []string{
 		filepath.Join(s.dir, s.prefix, filepath.Clean(p)),
 		filepath.Join(s.dir, s.prefix, filepath.Clean(md5p)),
-- 
2.43.0


From 4d517f6625f61e0cee2f27828948fa3ec363dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 17/25] fix: mirror.Storage.Save reports a failure to sync
 info.json

---
 mirror/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index 68f3c5e..a14078e 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -104,7 +104,10 @@ func (s *Storage) Save() error {
 		return err
 	}
 
-	f.Sync()
+	err = f.Sync()
+	if err != nil {
+		return err
+	}
 	err = DirSyncTree(s.dir)
 	if err != nil {
 		return errors.Wrap(err, "DirSyncTree(s.dir)")
-- 
2.43.0


From 266027359598cfc94e67448df0c4d03e50900b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 18/25] fix: mirror.Storage.Load takes the lock of the records
 it replaces

---
 mirror/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mirror/storage.go b/mirror/storage.go
index a14078e..a51c0eb 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -59,6 +59,9 @@ func (s *Storage) Dir() string {
 
 // Load loads existing directory contents.
 func (s *Storage) Load() error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	infoPath := filepath.Join(s.dir, infoJSON)
 
 	f, err := os.Open(infoPath)
-- 
2.43.0


From 25fde47ff8784891b7a72ad1f89caa3e6745e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 19/25] fix: DirSync closes the directory when syncing it fails

---
 mirror/dirsync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mirror/dirsync.go b/mirror/dirsync.go
index 040afec..d33f7c4 100644
--- a/mirror/dirsync.go
+++ b/mirror/dirsync.go
@@ -15,6 +15,7 @@ func DirSync(d string) error {
 	}
 	err = f.Sync()
 	if err != nil {
+		f.Close()
 		return err
 	}
 	return f.Close()
-- 
2.43.0


From e444d7b7a50b3f55ad67c3ee02a0575cd97dc24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 20/25] fix: MatchingIndex compares whole path components

---
 mirror/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mirror/config.go b/mirror/config.go
index 07af65f..d651694 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -138,13 +138,13 @@ func (mc *MirrConfig) MatchingIndex(p string) bool {
 	for _, section := range mc.Sections {
 		for _, arch := range archs {
 			t := path.Join(path.Clean(section), "binary-"+arch, "Packages")
-			if strings.HasSuffix(pNoExt, t) {
+			if strings.HasSuffix("/"+pNoExt, "/"+t) {
 				return true
 			}
 		}
 		if mc.Source {
 			t := path.Join(path.Clean(section), "source", "Sources")
-			if strings.HasSuffix(pNoExt, t) {
+			if strings.HasSuffix("/"+pNoExt, "/"+t) {
 				return true
 			}
 		}
-- 
2.43.0


From a5f27f0bb2f34008502046d9464c077a1c03811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 21/25] fix: max_conns 0 means no limit for mirrors, and a
 negative one is refused

---
 mirror/mirror.go | 52 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 3baa163..0aa6280 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -55,6 +55,9 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 	if err := mc.Check(); err != nil {
 		return nil, errors.Wrap(err, id)
 	}
+	if c.MaxConns < 0 {
+		return nil, errors.New(id + ": max_conns must not be negative")
+	}
 
 	var currentStorage *Storage
 	curdir, err := filepath.EvalSymlinks(filepath.Join(dir, id))
@@ -83,9 +86,13 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		return nil, errors.Wrap(err, id)
 	}
 
-	sem := make(chan struct{}, c.MaxConns)
-	for i := 0; i < c.MaxConns; i++ {
-		sem <- struct{}{}
+	// no semaphore means no limit
+	var sem chan struct{}
+	if c.MaxConns > 0 {
+		sem = make(chan struct{}, c.MaxConns)
+		for i := 0; i < c.MaxConns; i++ {
+			sem <- struct{}{}
+		}
 	}
 
 	transport := clonedTransport(http.DefaultTransport)
@@ -292,6 +299,31 @@ func closeAndRemoveFile(f *os.File) {
 	os.Remove(f.Name())
 }
 
+// acquireSemaphore waits for a slot to download an item, if there is a limit.
+func (m *Mirror) acquireSemaphore(ctx context.Context) error {
+	if m.semaphore == nil {
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		default:
+		}
+		return nil
+	}
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-m.semaphore:
+	}
+	return nil
+}
+
+// releaseSemaphore gives back a slot obtained by acquireSemaphore.
+func (m *Mirror) releaseSemaphore() {
+	if m.semaphore != nil {
+		m.semaphore <- struct{}{}
+	}
+}
+
 // download is a goroutine to download an item.
 func (m *Mirror) download(ctx context.Context,
 	p string, fi *apt.FileInfo, byhash bool, ch chan<- *dlResult) {
@@ -304,7 +336,7 @@ func (m *Mirror) download(ctx context.Context,
 	defer func() {
 		r.tempfile = tempfile
 		ch <- r
-		m.semaphore <- struct{}{}
+		m.releaseSemaphore()
 	}()
 
 	var retries uint
@@ -491,10 +523,8 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	results := make(chan *dlResult, len(releases))
 
 	for _, p := range releases {
-		select {
-		case <-ctx.Done():
-			return nil, false, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquireSemaphore(ctx); err != nil {
+			return nil, false, err
 		}
 
 		go m.download(ctx, p, nil, false, results)
@@ -625,10 +655,8 @@ func (m *Mirror) reuseOrDownload(ctx context.Context, fil []*apt.FileInfo,
 			}
 		}
 
-		select {
-		case <-ctx.Done():
-			return nil, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquireSemaphore(ctx); err != nil {
+			return nil, err
 		}
 
 		env.Go(func(ctx context.Context) error {
-- 
2.43.0


From b4c48ee1f76ab638b80ce0c9ae8a8057b90d29f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 22/25] fix: a missing by-hash file does not turn a checksum
 mismatch into a missing file

---
 mirror/mirror.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 0aa6280..e976c34 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -346,6 +346,7 @@ func (m *Mirror) download(ctx context.Context,
 		targets = append(targets, fi.SHA1Path())
 		targets = append(targets, fi.MD5SumPath())
 	}
+	candidates := len(targets)
 
 RETRY:
 	if tempfile != nil {
@@ -410,6 +411,10 @@ RETRY:
 	}
 
 	if r.status != 200 {
+		if len(targets) < candidates {
+			// what was found before did not match
+			r.err = errors.New("invalid checksum for " + p)
+		}
 		return
 	}
 
-- 
2.43.0


From 3a55af34717612534c6eeb9bbe845462685feb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 23/25] fix: refuse "/" as the path of a file in the mirror
 snapshot

---
 mirror/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index a51c0eb..b72bac4 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -123,7 +123,7 @@ func (s *Storage) Save() error {
 // inside the storage.
 func checkPath(p string) error {
 	p = filepath.Clean(p)
-	if p == "." || p == ".." || strings.HasPrefix(p, "../") {
+	if p == "." || p == "/" || p == ".." || strings.HasPrefix(p, "../") {
 		return errors.New("bad path: " + p)
 	}
 	return nil
-- 
2.43.0


From c31a77319d189769304c6ab54f44d8aa60f5830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 24/25] fix: refuse a check_interval that overflows when
 converted to a duration

---
 cacher/cacher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 5d6ca03..8e6d218 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"io"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"net/url"
 	"os"
@@ -59,7 +60,7 @@ type Cacher struct {
 
 // NewCacher constructs Cacher.
 func NewCacher(config *Config) (*Cacher, error) {
-	if config.CheckInterval <= 0 {
+	if config.CheckInterval <= 0 || int64(config.CheckInterval) > int64(math.MaxInt64/time.Second) {
 		return nil, errors.New("invaild check_interval")
 	}
 	if config.MaxConns < 0 {
-- 
2.43.0


From 9acfab068caf492d4015fb9619e67f32f32bf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 25/25] fix: refuse a cache_capacity that overflows when
 converted to bytes

---
 cacher/cacher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 8e6d218..3d71bce 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -86,6 +86,9 @@ func NewCacher(config *Config) (*Cacher, error) {
 	if config.CacheCapacity <= 0 {
 		return nil, errors.New("cache_capacity must be > 0")
 	}
+	if uint64(config.CacheCapacity) > math.MaxUint64/gib {
+		return nil, errors.New("cache_capacity is too large")
+	}
 	capacity := uint64(config.CacheCapacity) * gib
 
 	meta := NewStorage(metaDir, 0)
-- 
2.43.0

