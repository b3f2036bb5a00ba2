From be4dd6158a17facb35e42237e592dea87b4650dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 01/35] fix: rank candidates consistently when both versions
 are unparsable

comparePackages preferred whichever candidate came second when neither version
parses, so the comparison was not antisymmetric and the result depended on the
order of the candidates. Only a version that parses beats one that does not;
otherwise the next criterion decides.
---
 pkg/apk/repo.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index b70f1af..055a584 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -903,33 +903,37 @@ func (p *PkgResolver) comparePackages(compare *RepositoryPackage, name string, e
 		}
 		// both matched or both did not, so just compare versions
 		// version priority
-		iVersion, err := p.parseVersion(iVersionStr)
-		if err != nil {
+		iVersion, iErr := p.parseVersion(iVersionStr)
+		jVersion, jErr := p.parseVersion(jVersionStr)
+		if iErr != nil && jErr == nil {
 			return 1
 		}
-		jVersion, err := p.parseVersion(jVersionStr)
-		if err != nil {
-			// If j fails to parse, prefer i.
+		if iErr == nil && jErr != nil {
+			// If only j fails to parse, prefer i.
 			return -1
 		}
-		versions := CompareVersions(iVersion, jVersion)
-		if versions != equal {
-			return -1 * versions
+		if iErr == nil && jErr == nil {
+			versions := CompareVersions(iVersion, jVersion)
+			if versions != equal {
+				return -1 * versions
+			}
 		}
 		// if versions are equal, they might not be the same as the package versions
 		if iVersionStr != a.Version || jVersionStr != b.Version {
-			iVersion, err := p.parseVersion(a.Version)
-			if err != nil {
+			iVersion, iErr := p.parseVersion(a.Version)
+			jVersion, jErr := p.parseVersion(b.Version)
+			if iErr != nil && jErr == nil {
 				return 1
 			}
-			jVersion, err := p.parseVersion(b.Version)
-			if err != nil {
-				// If j fails to parse, prefer i.
+			if iErr == nil && jErr != nil {
+				// If only j fails to parse, prefer i.
 				return -1
 			}
-			versions := CompareVersions(iVersion, jVersion)
-			if versions != equal {
-				return -1 * versions
+			if iErr == nil && jErr == nil {
+				versions := CompareVersions(iVersion, jVersion)
+				if versions != equal {
+					return -1 * versions
+				}
 			}
 		}
 		// if versions are equal, compare names
-- 
2.43.0


From 391afd9498149a93ba9d9fff2576ff9397244b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 02/35] fix: reject user and group identifiers that do not fit
 32 bits

---
 pkg/passwd/passwd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 0a4a667..1481a23 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -133,13 +133,13 @@ func (ue *UserEntry) Parse(line string) error {
 	ue.UserName = parts[0]
 	ue.Password = parts[1]
 
-	uid, err := strconv.Atoi(parts[2])
+	uid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
 	ue.UID = uint32(uid)
 
-	gid, err := strconv.Atoi(parts[3])
+	gid, err := strconv.ParseUint(parts[3], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse GID %s", parts[3])
 	}
-- 
2.43.0


From db286bb1ac6b7aaa12c0465879ff1a9fdd287ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 03/35] fix: read a group without members as a group without
 members, reject out-of-range group ids

---
 pkg/passwd/group.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index 5021f4d..b4bfb0b 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -129,13 +129,16 @@ func (ge *GroupEntry) Parse(line string) error {
 	ge.GroupName = parts[0]
 	ge.Password = parts[1]
 
-	gid, err := strconv.Atoi(parts[2])
+	gid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
 	ge.GID = uint32(gid)
 
-	ge.Members = strings.Split(parts[3], ",")
+	ge.Members = nil
+	if parts[3] != "" {
+		ge.Members = strings.Split(parts[3], ",")
+	}
 
 	return nil
 }
-- 
2.43.0


From aff0a6199d106c8888d3efb9be66894726a097c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 04/35] fix: do not panic on an archive entry with an empty
 name

---
 pkg/apk/install.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index b1daadd..eea4259 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -202,7 +202,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 		}
 		// if it was a hidden file and not a directory and we have not yet started the data section,
 		// so skip this file
-		if !startedDataSection && header.Name[0] == '.' && !strings.Contains(header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(header.Name, ".") && !strings.Contains(header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
@@ -317,7 +317,7 @@ func (a *APK) lazilyInstallAPKFiles(ctx context.Context, wh WriteHeaderer, tf *t
 		//  * considered to start the data section of the file.
 		//  * This does not make any sense if the file has v2.0
 		//  * style .PKGINFO
-		if !startedDataSection && file.Header.Name[0] == '.' && !strings.Contains(file.Header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(file.Header.Name, ".") && !strings.Contains(file.Header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
-- 
2.43.0


From b7b407d88989eb5d042aebac3cf6e6c5db676eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 05/35] fix: report an empty package stream as an error instead
 of panicking

---
 pkg/expandapk/expandapk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 5f4fc4f..1824788 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -413,6 +413,9 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		}
 	}
 
+	if gzi == nil {
+		return nil, fmt.Errorf("expandApk error 6: %w", io.ErrUnexpectedEOF)
+	}
 	if err := gzi.Close(); err != nil {
 		return nil, fmt.Errorf("expandApk error 6: %w", err)
 	}
-- 
2.43.0


From deed482dfe7fb26a6ca669077945d7052cdfd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 06/35] fix: read an index only from the bytes its signature
 covers

---
 pkg/apk/index.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 9417726..99153d2 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -242,6 +242,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 	}
 
 	// validate the signature
+	var signature []byte
 	if shouldCheckSignatureForIndex(u, arch, opts) {
 		buf := bytes.NewReader(b)
 		gzipReader, err := gzip.NewReader(buf)
@@ -265,7 +266,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if len(matches) != 2 {
 			return nil, fmt.Errorf("failed to find key name in signature file name: %s", signatureFile.Name)
 		}
-		signature, err := io.ReadAll(tarReader)
+		signature, err = io.ReadAll(tarReader)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read signature from repository index: %w", err)
 		}
@@ -306,12 +307,17 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if !verified {
 			return nil, fmt.Errorf("no key found to verify signature for keyfile %s; tried all other keys as well", matches[1])
 		}
+		// only what the signature covers is part of the index
+		b = indexData
 	}
 	// with a valid signature, convert it to an ApkIndex
 	index, err := IndexFromArchive(io.NopCloser(bytes.NewReader(b)))
 	if err != nil {
 		return nil, fmt.Errorf("unable to read convert repository index bytes to index struct at %s: %w", asURL.Redacted(), err)
 	}
+	if signature != nil {
+		index.Signature = signature
+	}
 
 	return index, err
 }
-- 
2.43.0


From 4158135bbeee6ac5144564b8477950d3678f1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 07/35] fix: do not serve an index from memory that was read
 without the requested signature check

---
 pkg/apk/index.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 99153d2..b4943aa 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -18,6 +18,7 @@ import (
 	"archive/tar"
 	"bytes"
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"io"
@@ -26,6 +27,7 @@ import (
 	"net/url"
 	"os"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -64,12 +66,13 @@ type indexCache struct {
 }
 
 func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (*APKIndex, error) {
+	key := indexCacheKey(u, keys, arch, opts)
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
 		// We don't want remote indexes to change while we're running.
-		once, _ := i.onces.LoadOrStore(u, &sync.Once{})
+		once, _ := i.onces.LoadOrStore(key, &sync.Once{})
 		once.(*sync.Once).Do(func() {
 			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
+			i.indexes.Store(key, indexResult{
 				idx: idx,
 				err: err,
 			})
@@ -85,19 +88,19 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 		}
 
 		mod := stat.ModTime()
-		before, ok := i.modtimes[u]
+		before, ok := i.modtimes[key]
 		if !ok || mod.After(before) {
 			// If this is the first time or it has changed since the last time...
 			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
+			i.indexes.Store(key, indexResult{
 				idx: idx,
 				err: err,
 			})
-			i.modtimes[u] = mod
+			i.modtimes[key] = mod
 		}
 	}
 
-	v, ok := i.indexes.Load(u)
+	v, ok := i.indexes.Load(key)
 	if !ok {
 		asURL, _ := url.Parse(u)
 		panic(fmt.Errorf("did not see index %q after writing it", asURL.Redacted()))
@@ -107,6 +110,24 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 	return result.idx, result.err
 }
 
+// indexCacheKey identifies a cached index: one that was read without checking its signature,
+// or that was checked against other keys, must not be handed out in place of a verified one.
+func indexCacheKey(u string, keys map[string][]byte, arch string, opts *indexOpts) string {
+	if !shouldCheckSignatureForIndex(u, arch, opts) {
+		return u
+	}
+	names := make([]string, 0, len(keys))
+	for name := range keys {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	h := sha256.New()
+	for _, name := range names {
+		fmt.Fprintf(h, "%q %x\n", name, keys[name])
+	}
+	return fmt.Sprintf("%s %x", u, h.Sum(nil))
+}
+
 // IndexURL full URL to the index file for the given repo and arch
 func IndexURL(repo, arch string) string {
 	return fmt.Sprintf("%s/%s/%s", repo, arch, indexFilename)
-- 
2.43.0


From f1d346575ede8e821454007cd615469d51865823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 08/35] fix: do not resume a download from a part that starts
 elsewhere

A 206 reply whose Content-Range starts at another offset than the one asked
for was spliced into the stream as if it continued it.
---
 pkg/apk/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index 8f3585f..d4128cf 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"strings"
 )
 
 type rangeRetryTransport struct {
@@ -96,6 +97,9 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		}
 
 		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+	} else if got := resp.Header.Get("Content-Range"); got != "" && !strings.HasPrefix(got, fmt.Sprintf("bytes %d-", r.progress)) {
+		// A part that starts elsewhere does not continue what we've already Read().
+		return resp, fmt.Errorf("%s %s (Range: %s): unexpected content range: %q", req.Method, req.URL.String(), rangeHeader, got)
 	}
 
 	r.body = resp.Body
-- 
2.43.0


From bbcfb2a838378cdf5c71e8bdfba11a0ce1c29805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 09/35] fix: do not report a download that cannot be resumed as
 ended

When the connection for the range request is closed before a reply, or the
replacement body is shorter than what was already read, the error returned by
Read satisfied errors.Is(err, io.EOF) although the stream was cut short.
---
 pkg/apk/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index d4128cf..6d273c8 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -134,6 +134,10 @@ func (r *rangeRetryReader) Read(p []byte) (n int, err error) {
 			if resp != nil && resp.Body != nil {
 				resp.Body.Close()
 			}
+			if errors.Is(rerr, io.EOF) {
+				// The stream did not end, even if resuming it failed with an EOF.
+				rerr = fmt.Errorf("%w: %v", io.ErrUnexpectedEOF, rerr)
+			}
 			return n, errors.Join(rerr, err)
 		}
 	}
-- 
2.43.0


From f7be00bc9c09a145c155de49fbc8597f9bb8f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 10/35] fix: keep every disk-backed filesystem operation inside
 its base directory

Only opening for reading checked the path it was given; every other
operation joined it to the base and passed it on, so a path with parent
directory components reached outside. The check itself compared prefixes
without a separator and so accepted siblings of the base such as
"base-other".
---
 pkg/fs/rwosfs.go | 120 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 84 insertions(+), 36 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 2b659fe..ed909a5 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -267,10 +267,11 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 // This only works if the user reading the file actually has
 // permissions to change the file permissions.
 func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
-	var (
-		file File
-		err  error
-	)
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
+	var file File
 	if flag&os.O_CREATE == os.O_CREATE {
 		file, err = f.overrides.OpenFile(name, flag, perm)
 		if err != nil {
@@ -279,14 +280,14 @@ func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 		// do we create it on disk?
 		if f.createOnDisk(name) {
 			_ = file.Close()
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
+			file, err = os.OpenFile(fullpath, flag, perm)
 			if err != nil {
 				return nil, err
 			}
 		}
 	} else {
 		if f.caseSensitiveOnDisk(name) {
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
+			file, err = os.OpenFile(fullpath, flag, perm)
 		} else {
 			file, err = f.overrides.OpenFile(name, flag, perm)
 		}
@@ -302,16 +303,17 @@ func (f *dirFS) OpenReaderAt(name string) (File, error) {
 }
 
 func (f *dirFS) Stat(name string) (fs.FileInfo, error) {
-	var (
-		fi  fs.FileInfo
-		err error
-	)
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
+	var fi fs.FileInfo
 	mi, err := f.overrides.Stat(name)
 	if err != nil {
 		return nil, err
 	}
 	if f.caseSensitiveOnDisk(name) {
-		fi, err = os.Stat(filepath.Join(f.base, name))
+		fi, err = os.Stat(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -328,13 +330,13 @@ func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
 }
 
 func (f *dirFS) Create(name string) (File, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	// if the underlying filesystem is case-insensitive, check if the file exists and, if so,
 	// do it only in memory.
-	var (
-		file File
-		err  error
-	)
-	file, err = f.overrides.Create(name)
+	file, err := f.overrides.Create(name)
 	if err != nil {
 		return nil, err
 	}
@@ -342,7 +344,7 @@ func (f *dirFS) Create(name string) (File, error) {
 	if f.createOnDisk(name) {
 		// close the memory one
 		_ = file.Close()
-		file, err = os.Create(filepath.Join(f.base, name))
+		file, err = os.Create(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -352,23 +354,30 @@ func (f *dirFS) Create(name string) (File, error) {
 }
 
 func (f *dirFS) Remove(name string) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	if err := f.overrides.Remove(name); err != nil {
 		return err
 	}
 	if f.removeOnDisk(name) {
-		return os.Remove(filepath.Join(f.base, name))
+		return os.Remove(fullpath)
 	}
 	return nil
 }
 
 func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	// get those on disk
 	var (
 		onDisk, inMem []fs.DirEntry
-		err           error
 	)
 	if f.caseSensitiveOnDisk(name) {
-		onDisk, err = os.ReadDir(filepath.Join(f.base, name))
+		onDisk, err = os.ReadDir(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -405,17 +414,25 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	return dirEntries, nil
 }
 func (f *dirFS) ReadFile(name string) ([]byte, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	if f.caseSensitiveOnDisk(name) {
-		return os.ReadFile(filepath.Join(f.base, name))
+		return os.ReadFile(fullpath)
 	}
 	return f.overrides.ReadFile(name)
 }
 func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	var (
 		memContent []byte
 	)
 	if f.createOnDisk(name) {
-		if err := os.WriteFile(filepath.Join(f.base, name), b, mode); err != nil {
+		if err := os.WriteFile(fullpath, b, mode); err != nil {
 			return err
 		}
 	} else {
@@ -429,8 +446,12 @@ func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
 }
 
 func (f *dirFS) Readnod(name string) (dev int, err error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return 0, err
+	}
 	if f.caseSensitiveOnDisk(name) {
-		_, err = os.Stat(filepath.Join(f.base, name))
+		_, err = os.Stat(fullpath)
 		if err != nil {
 			return 0, err
 		}
@@ -441,13 +462,16 @@ func (f *dirFS) Readnod(name string) (dev int, err error) {
 func (f *dirFS) Link(oldname, newname string) error {
 	// for hardlink, we cannot take target as is, as it might be outside of the base.
 	// So we must sanitize it. It should point to a file that is within the filesystem.
-	target := filepath.Join(f.base, oldname)
-	target = filepath.Clean(target)
-	if !strings.HasPrefix(target, f.base) {
-		return fmt.Errorf("hardlink target %s is outside of the filesystem", target)
+	target, err := f.sanitizePath(oldname)
+	if err != nil {
+		return fmt.Errorf("hardlink target %s is outside of the filesystem: %w", oldname, err)
+	}
+	fullpath, err := f.sanitizePath(newname)
+	if err != nil {
+		return err
 	}
 	if f.createOnDisk(newname) {
-		if err := os.Link(target, filepath.Join(f.base, newname)); err != nil {
+		if err := os.Link(target, fullpath); err != nil {
 			return err
 		}
 	}
@@ -455,11 +479,15 @@ func (f *dirFS) Link(oldname, newname string) error {
 }
 
 func (f *dirFS) Symlink(oldname, newname string) error {
+	fullpath, err := f.sanitizePath(newname)
+	if err != nil {
+		return err
+	}
 	// For symlink, take target as is.
 	// If it is outside of the base, it will be resolved by Readlink.
 	// This enables proper symlink behaviour.
 	if f.createOnDisk(newname) {
-		if err := os.Symlink(oldname, filepath.Join(f.base, newname)); err != nil {
+		if err := os.Symlink(oldname, fullpath); err != nil {
 			return err
 		}
 	}
@@ -467,10 +495,14 @@ func (f *dirFS) Symlink(oldname, newname string) error {
 }
 
 func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	// just in case, because some underlying systems miss this
 	fullPerm := os.ModeDir | perm
 	if f.createOnDisk(name) {
-		if err := os.MkdirAll(filepath.Join(f.base, name), fullPerm); err != nil {
+		if err := os.MkdirAll(fullpath, fullPerm); err != nil {
 			return err
 		}
 	}
@@ -478,10 +510,14 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 }
 
 func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	// just in case, because some underlying systems miss this
 	fullPerm := os.ModeDir | perm
 	if f.createOnDisk(name) {
-		if err := os.Mkdir(filepath.Join(f.base, name), fullPerm); err != nil {
+		if err := os.Mkdir(fullpath, fullPerm); err != nil {
 			return err
 		}
 	}
@@ -489,26 +525,38 @@ func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
 }
 
 func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
+	fullpath, err := f.sanitizePath(path)
+	if err != nil {
+		return err
+	}
 	if f.caseSensitiveOnDisk(path) {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chmod(filepath.Join(f.base, path), perm)
+		_ = os.Chmod(fullpath, perm)
 	}
 	return f.overrides.Chmod(path, perm)
 }
 func (f *dirFS) Chown(path string, uid, gid int) error {
+	fullpath, err := f.sanitizePath(path)
+	if err != nil {
+		return err
+	}
 	if f.caseSensitiveOnDisk(path) {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chown(filepath.Join(f.base, path), uid, gid)
+		_ = os.Chown(fullpath, uid, gid)
 	}
 	return f.overrides.Chown(path, uid, gid)
 }
 
 func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	if f.caseSensitiveOnDisk(name) {
-		err := unix.Mknod(filepath.Join(f.base, name), mode, dev)
+		err := unix.Mknod(fullpath, mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
 		if err != nil {
-			if err := os.WriteFile(filepath.Join(f.base, name), nil, 0); err != nil {
+			if err := os.WriteFile(fullpath, nil, 0); err != nil {
 				return err
 			}
 		}
@@ -537,7 +585,7 @@ func (f *dirFS) sanitizePath(p string) (v string, err error) {
 }
 func sanitizePath(base, p string) (v string, err error) {
 	v = filepath.Join(base, p)
-	if strings.HasPrefix(filepath.Clean(v), base) {
+	if rel, err := filepath.Rel(base, v); err == nil && filepath.IsLocal(rel) {
 		return v, nil
 	}
 
-- 
2.43.0


From d5ddda572fc38641e3358f8682584d50c7deea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 11/35] fix: restore the permissions of the file that was
 opened

Closing a file whose permissions had been changed to read it changed the
mode of whatever had the same base name in the working directory.
---
 pkg/fs/rwosfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index ed909a5..9e383d3 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -249,7 +249,7 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 		perms := fi.Mode()
 		return &fileImpl{
 			file:  file,
-			name:  baseName,
+			name:  fullpath,
 			perms: &perms,
 		}, nil
 	}
-- 
2.43.0


From 10e3ea1f63fe7289b10b2b99683853c42d799351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 12/35] fix: do not take siblings of the cache directory for
 part of it

Whether a cache file is within the root was decided by comparing prefixes
without a separator, so the cache "/var/cache/apk" accepted files in
"/var/cache/apk-other".
---
 pkg/apk/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 54e7883..b375f8c 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -345,7 +345,7 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	// validate it is within root
 	cacheFile = filepath.Clean(cacheFile)
 	cleanroot := filepath.Clean(root)
-	if !strings.HasPrefix(cacheFile, cleanroot) {
+	if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || rel == "." || !filepath.IsLocal(rel) {
 		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
 	}
 	return cacheFile, nil
-- 
2.43.0


From e02d1b48fe7cd5e10045fa2b3492b7f4f1f92a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 13/35] fix: do not let an entity tag name a file outside the
 cache entry's directory

The tag comes from the server and was joined to the cache directory as it
is, so a tag such as "../../x" wrote outside the cache, and different tags
could name the same file.
---
 pkg/apk/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index b375f8c..615fb7d 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -246,7 +246,8 @@ func cacheFileFromEtag(cacheFile, etag string) string {
 		ext = ".tar.gz"
 	}
 
-	return filepath.Join(cacheDir, etag+ext)
+	// The server chooses the etag, so it must not be able to name another directory.
+	return filepath.Join(cacheDir, url.QueryEscape(etag)+ext)
 }
 
 func etagFromResponse(resp *http.Response) (string, bool) {
-- 
2.43.0


From 7f27589923b5f780d595510d16b2ab46170ed1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 14/35] fix: report an unsuccessful response instead of an
 empty cache file name

A non-200 reply to the download was returned as success without a file
name (and its body never closed).
---
 pkg/apk/cache.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 615fb7d..2a04627 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -267,9 +267,13 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 		return "", fmt.Errorf("wrapped client is nil")
 	}
 	resp, err := t.wrapped.Do(request)
-	if err != nil || resp.StatusCode != 200 {
+	if err != nil {
 		return "", err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != 200 {
+		return "", fmt.Errorf("unexpected status code %d for %s", resp.StatusCode, request.URL.Redacted())
+	}
 
 	// Determine the file we will caching stuff in based on the URL/response
 	cacheFile, err := cp(resp)
@@ -289,7 +293,6 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 	}
 	if err := func() error {
 		defer tmp.Close()
-		defer resp.Body.Close()
 		if _, err := io.Copy(tmp, resp.Body); err != nil {
 			return fmt.Errorf("unable to write to cache file: %w", err)
 		}
-- 
2.43.0


From afba74d6928a0731211dd303f81c56f06252e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 15/35] fix: do not serve unfinished downloads from the offline
 cache

A download that failed left its temporary file in the directory of the
cache entry, where the offline mode picks the newest file.
---
 pkg/apk/cache.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 2a04627..f2f153e 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -193,26 +193,27 @@ func (t *cacheTransport) RoundTrip(request *http.Request) (*http.Response, error
 			return nil, fmt.Errorf("listing %q for offline cache: %w", cacheDir, err)
 		}
 
-		if len(des) == 0 {
-			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
-		}
-
-		newest, err := des[0].Info()
-		if err != nil {
-			return nil, err
-		}
+		var newest os.FileInfo
+		for _, de := range des {
+			// Downloads that did not finish are not entries.
+			if strings.HasSuffix(de.Name(), ".tmp") {
+				continue
+			}
 
-		for _, de := range des[1:] {
 			fi, err := de.Info()
 			if err != nil {
 				return nil, err
 			}
 
-			if fi.ModTime().After(newest.ModTime()) {
+			if newest == nil || fi.ModTime().After(newest.ModTime()) {
 				newest = fi
 			}
 		}
 
+		if newest == nil {
+			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
+		}
+
 		f, err := os.Open(filepath.Join(cacheDir, newest.Name()))
 		if err != nil {
 			return nil, err
@@ -291,6 +292,8 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 	if err != nil {
 		return "", fmt.Errorf("unable to create a temporary cache file: %w", err)
 	}
+	// Do not leave a partial download behind (this fails once the file has been renamed).
+	defer os.Remove(tmp.Name())
 	if err := func() error {
 		defer tmp.Close()
 		if _, err := io.Copy(tmp, resp.Body); err != nil {
-- 
2.43.0


From 013d846c9a9d5049b199a4d5606aeb1121fd8874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 16/35] fix: do not serve files of another cache directory

Responses were remembered by address alone, so a second cache in the same
process read the files of the first.
---
 pkg/apk/cache.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index f2f153e..b524cc3 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -36,11 +36,17 @@ type etagResp struct {
 	cacheFile string
 }
 
+// etagKey identifies a response: each cache directory has its own.
+type etagKey struct {
+	root string
+	url  string
+}
+
 type etagCache struct {
-	// url -> *sync.Once
+	// etagKey -> *sync.Once
 	etags sync.Map
 
-	// url -> etagResp
+	// etagKey -> etagResp
 	resps sync.Map
 }
 
@@ -49,10 +55,10 @@ type etagCache struct {
 // the internet for the first once and reuse the results for all subsequent calls (unless the response does
 // not have an etag).
 func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile string) (*http.Response, error) {
-	url := request.URL.String()
+	key := etagKey{root: t.root, url: request.URL.String()}
 
 	// Do all the expensive things inside the once.
-	once, _ := e.etags.LoadOrStore(url, &sync.Once{})
+	once, _ := e.etags.LoadOrStore(key, &sync.Once{})
 	once.(*sync.Once).Do(func() {
 		req := request.Clone(request.Context())
 		req.Method = http.MethodHead
@@ -62,7 +68,7 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 			resp.Body.Close()
 		}
 		if rerr != nil || resp.StatusCode != 200 {
-			e.resps.Store(url, etagResp{
+			e.resps.Store(key, etagResp{
 				resp: resp,
 				err:  rerr,
 			})
@@ -78,7 +84,7 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 		// file extension.
 		etagFile := cacheFileFromEtag(cacheFile, initialEtag)
 		if _, err := os.Stat(etagFile); err == nil {
-			e.resps.Store(url, etagResp{
+			e.resps.Store(key, etagResp{
 				cacheFile: etagFile,
 			})
 			return
@@ -95,13 +101,13 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 
 			return cacheFileFromEtag(cacheFile, finalEtag), nil
 		})
-		e.resps.Store(url, etagResp{
+		e.resps.Store(key, etagResp{
 			err:       err,
 			cacheFile: etagFile,
 		})
 	})
 
-	v, ok := e.resps.Load(url)
+	v, ok := e.resps.Load(key)
 	if !ok {
 		// If the server doesn't return etags, and we require them,
 		// then do not cache.
-- 
2.43.0


From a947d58760122ff2023925a5d92ec58943146e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 17/35] fix: check the data hash before looking for a file of
 that name

The hash is read from the package, so it could name a file outside the
package's cache directory.
---
 pkg/apk/implementation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index c105a25..6700588 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -879,18 +879,18 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 		return nil, fmt.Errorf("datahash for %s: %w", pkg, err)
 	}
 
-	dat := filepath.Join(cacheDir, datahash+".dat.tar.gz")
-	df, err := os.Stat(dat)
+	exp.PackageHash, err = hex.DecodeString(datahash)
 	if err != nil {
 		return nil, err
 	}
-	exp.PackageFile = dat
-	exp.Size += df.Size()
 
-	exp.PackageHash, err = hex.DecodeString(datahash)
+	dat := filepath.Join(cacheDir, datahash+".dat.tar.gz")
+	df, err := os.Stat(dat)
 	if err != nil {
 		return nil, err
 	}
+	exp.PackageFile = dat
+	exp.Size += df.Size()
 
 	exp.TarFile = strings.TrimSuffix(exp.PackageFile, ".gz")
 	data, err := exp.PackageData()
-- 
2.43.0


From 989f244292d6ebb39941af7ee5b405b5327c82f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 18/35] fix: give a cached package's tar file its name only
 when it is complete

Decompressing in place left a partial tar behind when it failed or was
interrupted, which later uses of the cache took for the whole.
---
 pkg/expandapk/expandapk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 1824788..59422b5 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -119,10 +119,13 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("parsing %q: %w", a.PackageFile, err)
 	}
 
-	uf, err = os.Create(a.TarFile)
+	// Others may be looking for the tar file, so it gets its name when it is complete.
+	uf, err = os.CreateTemp(filepath.Dir(a.TarFile), "*.tmp")
 	if err != nil {
 		return nil, fmt.Errorf("opening tar file %q: %w", a.TarFile, err)
 	}
+	defer os.Remove(uf.Name())
+	defer uf.Close()
 
 	buf := make([]byte, bufSize)
 	if _, err := io.CopyBuffer(uf, zr, buf); err != nil {
@@ -133,6 +136,10 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("closing %q: %w", a.TarFile, err)
 	}
 
+	if err := os.Rename(uf.Name(), a.TarFile); err != nil {
+		return nil, fmt.Errorf("renaming %q: %w", a.TarFile, err)
+	}
+
 	return os.Open(a.TarFile)
 }
 
-- 
2.43.0


From 63b449ed35329ec1e941b68293992842ecb77367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 19/35] fix: do not keep a package's files in the cache
 directory itself

The directory of a package whose file name is only an extension after
dots ("...apk") was taken without checking it, and named the root of the
cache.
---
 pkg/apk/cache.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index b524cc3..f8d5ec9 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -334,7 +334,17 @@ func cacheDirForPackage(root string, pkg InstallablePackage) (string, error) {
 		return "", fmt.Errorf("unexpected ext (%s) to cache dir: %q", ext, p)
 	}
 
-	return strings.TrimSuffix(p, ".apk"), nil
+	dir := strings.TrimSuffix(p, ".apk")
+	if !withinCache(root, dir) {
+		return "", fmt.Errorf("cache dir %s is not within root %s", dir, root)
+	}
+	return dir, nil
+}
+
+// withinCache reports whether p names something below root.
+func withinCache(root, p string) bool {
+	rel, err := filepath.Rel(root, p)
+	return err == nil && rel != "." && filepath.IsLocal(rel)
 }
 
 // cachePathFromURL given a URL, figure out what the cache path would be
@@ -358,7 +368,7 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	// validate it is within root
 	cacheFile = filepath.Clean(cacheFile)
 	cleanroot := filepath.Clean(root)
-	if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || rel == "." || !filepath.IsLocal(rel) {
+	if !withinCache(cleanroot, cacheFile) {
 		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
 	}
 	return cacheFile, nil
-- 
2.43.0


From 8ff267991509ef62ff400dcc82f5c48fc569af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 20/35] fix: fill the gap when writing beyond the end of an
 in-memory file

---
 pkg/fs/memfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index acce239..98f0f0b 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -609,6 +609,10 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if f.openMode&os.O_APPEND != 0 && f.openMode&os.O_RDWR != 0 && f.openMode&os.O_WRONLY != 0 {
 		return 0, errors.New("file not opened in write mode")
 	}
+	if gap := f.offset - int64(len(f.node.data)); gap > 0 {
+		// What lies between the end and where we write reads as zeros.
+		f.node.data = append(f.node.data, make([]byte, gap)...)
+	}
 	if f.offset+int64(len(p)) > int64(len(f.node.data)) {
 		f.node.data = append(f.node.data[:f.offset], p...)
 	} else {
-- 
2.43.0


From 8dea4aa80b4e17499a87ac69c8af2ad3e1440125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 21/35] fix: reject seeking an in-memory file to a negative
 position

---
 pkg/fs/memfs.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 98f0f0b..8ba8113 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -591,14 +591,17 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	}
 	switch whence {
 	case io.SeekStart:
-		f.offset = offset
 	case io.SeekCurrent:
-		f.offset += offset
+		offset += f.offset
 	case io.SeekEnd:
-		f.offset = int64(len(f.node.data)) + offset
+		offset += int64(len(f.node.data))
 	default:
 		return 0, errors.New("invalid whence")
 	}
+	if offset < 0 {
+		return 0, errors.New("negative position")
+	}
+	f.offset = offset
 	return f.offset, nil
 }
 
-- 
2.43.0


From e40443d3c39f3a2c8e81efccfe275b8b56a7492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 22/35] fix: report the end of an in-memory file on short
 positional reads, reject negative offsets

---
 pkg/fs/memfs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 8ba8113..22fddab 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -579,10 +579,16 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	if off < 0 {
+		return 0, errors.New("negative offset")
+	}
 	if off >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
 	n = copy(p, f.node.data[off:])
+	if n < len(p) {
+		return n, io.EOF
+	}
 	return n, nil
 }
 func (f *memFile) Seek(offset int64, whence int) (int64, error) {
-- 
2.43.0


From 255a87b44ee922b7cb947b430d1d770d73ef4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 23/35] fix: position an in-memory file opened for append after
 truncating it

---
 pkg/fs/memfs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 22fddab..4f8e0f7 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -538,12 +538,12 @@ func newMemFile(node *node, name string, memfs *memFS, openMode int) *memFile {
 		name:     name,
 		openMode: openMode,
 	}
-	if openMode&os.O_APPEND != 0 {
-		m.offset = int64(len(node.data))
-	}
 	if openMode&os.O_TRUNC != 0 {
 		node.data = nil
 	}
+	if openMode&os.O_APPEND != 0 {
+		m.offset = int64(len(node.data))
+	}
 	return m
 }
 
-- 
2.43.0


From 23a8daa56a1ed740b1aedb803f096e7c0f22897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 24/35] fix: ParsePackageIndex: a line of one character is an
 error, not a panic

---
 pkg/apk/apkindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 36fc91c..88f9d79 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -120,7 +120,7 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
-- 
2.43.0


From e0d7841514a58662fd8a2678c46e4cd2b83525c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 25/35] fix: ParsePackageIndex: keep the last record of a text
 that has no blank line at its end

---
 pkg/apk/apkindex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 88f9d79..74be505 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -191,6 +191,11 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 		linenr++
 	}
 
+	// The last record may end with the text instead of a blank line.
+	if pkg.Name != "" {
+		packages = append(packages, pkg)
+	}
+
 	return packages, indexScanner.Err()
 }
 
-- 
2.43.0


From 92ad838fa0293a7291a624763785e337cf779920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 26/35] fix: index template: write install_if entries the way
 they are read

---
 pkg/apk/apkindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 74be505..68bd098 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -62,7 +62,7 @@ var apkIndexTemplate = template.Must(template.New(apkIndexFilename).Funcs(
 		D:{{join .Dependencies}}
 		{{- end}}
 		{{- if .InstallIf}}
-		i:{{.InstallIf}}
+		i:{{join .InstallIf}}
 		{{- end}}
 		{{- if .Provides}}
 		p:{{join .Provides}}
-- 
2.43.0


From b50877c3d864cc821de0dcf83f82c35f2445d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 27/35] fix: GetRepositories: report a repository list that
 could not be read completely

---
 pkg/apk/repo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 055a584..e316d4c 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -127,7 +127,10 @@ func (a *APK) GetRepositories() (repos []string, err error) {
 	for scanner.Scan() {
 		repos = append(repos, scanner.Text())
 	}
-	return
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read repositories file: %w", err)
+	}
+	return repos, nil
 }
 
 // GetRepositoryIndexes returns the indexes for the repositories in the specified root.
-- 
2.43.0


From 7ef420413f0eb88e773f750b75b45aba05cf317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 28/35] fix: PackageToInstalled: write install_if the way it is
 read

---
 pkg/apk/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/package.go b/pkg/apk/package.go
index df914de..981d4e4 100644
--- a/pkg/apk/package.go
+++ b/pkg/apk/package.go
@@ -42,7 +42,7 @@ func PackageToInstalled(pkg *Package) (out []string) {
 		out = append(out, fmt.Sprintf("r:%s", strings.Join(pkg.Replaces, " ")))
 	}
 	out = append(out, fmt.Sprintf("c:%s", pkg.RepoCommit))
-	out = append(out, fmt.Sprintf("i:%s", pkg.InstallIf))
+	out = append(out, fmt.Sprintf("i:%s", strings.Join(pkg.InstallIf, " ")))
 	out = append(out, fmt.Sprintf("t:%d", pkg.BuildTime.Unix()))
 	out = append(out, fmt.Sprintf("S:%d", pkg.Size))
 	out = append(out, fmt.Sprintf("I:%d", pkg.InstalledSize))
-- 
2.43.0


From 8214c667c351665b9afa1465241df0632e607e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 29/35] fix: ParseInstalled: report a line of one character
 instead of panicking

---
 pkg/apk/installed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 141a763..2f06a80 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -255,7 +255,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
-- 
2.43.0


From bc939fe42bf8191149722fa6f5d57f98cba42887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 30/35] fix: ParseInstalled: an empty list has no members

---
 pkg/apk/installed.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 2f06a80..73b0eb2 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -280,11 +280,11 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 		case "U":
 			pkg.URL = val
 		case "D":
-			pkg.Dependencies = strings.Split(val, " ")
+			pkg.Dependencies = splitRepeatedField(val)
 		case "p":
-			pkg.Provides = strings.Split(val, " ")
+			pkg.Provides = splitRepeatedField(val)
 		case "r":
-			pkg.Replaces = strings.Split(val, " ")
+			pkg.Replaces = splitRepeatedField(val)
 		case "c":
 			pkg.RepoCommit = val
 		case "t":
@@ -295,7 +295,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			pkg.BuildDate = i
 			pkg.BuildTime = time.Unix(i, 0).UTC()
 		case "i":
-			pkg.InstallIf = strings.Split(val, " ")
+			pkg.InstallIf = splitRepeatedField(val)
 		case "S":
 			size, err := strconv.ParseUint(val, 10, 64)
 			if err != nil {
-- 
2.43.0


From f135ccc6643a845367acd3a08ffa868e6fa98ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 31/35] fix: ParseInstalled: give the recorded owner and mode
 to the files that are returned

---
 pkg/apk/installed.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 73b0eb2..2b870ba 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -241,7 +241,8 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 
 	pkg := &InstalledPackage{}
 	linenr := 1
-	var lastDir, lastFile *tar.Header
+	// positions in pkg.Files
+	lastDir, lastFile := -1, -1
 
 	for indexScanner.Scan() {
 		line := indexScanner.Text()
@@ -250,8 +251,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 				packages = append(packages, pkg)
 			}
 			pkg = &InstalledPackage{}
-			lastDir = nil
-			lastFile = nil
+			lastDir, lastFile = -1, -1
 			continue
 		}
 
@@ -324,51 +324,50 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 				pkg.Checksum = checksum
 			}
 		case "F":
-			lastDir = &tar.Header{
+			pkg.Files = append(pkg.Files, tar.Header{
 				Name:     val,
 				Mode:     0o755,
 				Uid:      0,
 				Gid:      0,
 				Typeflag: tar.TypeDir,
-			}
-			pkg.Files = append(pkg.Files, *lastDir)
-			lastFile = nil
+			})
+			lastDir, lastFile = len(pkg.Files)-1, -1
 		case "M":
 			// directory perms if not 0o755
-			if lastDir == nil {
+			if lastDir < 0 {
 				return nil, fmt.Errorf("cannot parse line %d: no directory specified when setting permissions", linenr)
 			}
 			uid, gid, perms, err := parseInstalledPerms(val)
 			if err != nil {
 				return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
 			}
-			lastDir.Uid = uid
-			lastDir.Gid = gid
-			lastDir.Mode = perms
+			pkg.Files[lastDir].Uid = uid
+			pkg.Files[lastDir].Gid = gid
+			pkg.Files[lastDir].Mode = perms
 		case "R":
 			fullpath := val
-			if lastDir != nil {
-				fullpath, _ = sanitizeArchivePath(lastDir.Name, val)
+			if lastDir >= 0 {
+				fullpath, _ = sanitizeArchivePath(pkg.Files[lastDir].Name, val)
 			}
-			lastFile = &tar.Header{
+			pkg.Files = append(pkg.Files, tar.Header{
 				Name: fullpath,
 				Mode: 0o644,
 				Uid:  0,
 				Gid:  0,
-			}
-			pkg.Files = append(pkg.Files, *lastFile)
+			})
+			lastFile = len(pkg.Files) - 1
 		case "a":
 			// file perms if not 0o644
-			if lastFile == nil {
+			if lastFile < 0 {
 				return nil, fmt.Errorf("cannot parse line %d: no file specified when setting permissions", linenr)
 			}
 			uid, gid, perms, err := parseInstalledPerms(val)
 			if err != nil {
 				return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
 			}
-			lastFile.Uid = uid
-			lastFile.Gid = gid
-			lastFile.Mode = perms
+			pkg.Files[lastFile].Uid = uid
+			pkg.Files[lastFile].Gid = gid
+			pkg.Files[lastFile].Mode = perms
 		}
 
 		linenr++
-- 
2.43.0


From e91faed8f343be63b4d292c06fd995a171f67a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 32/35] fix: ParseInstalled: keep the names of files in the
 root directory, report names outside of their directory

---
 pkg/apk/installed.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 2b870ba..bf8ed1d 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -346,8 +346,13 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			pkg.Files[lastDir].Mode = perms
 		case "R":
 			fullpath := val
-			if lastDir >= 0 {
-				fullpath, _ = sanitizeArchivePath(pkg.Files[lastDir].Name, val)
+			// the files of the root directory are below "F:"
+			if lastDir >= 0 && pkg.Files[lastDir].Name != "" {
+				var err error
+				fullpath, err = sanitizeArchivePath(pkg.Files[lastDir].Name, val)
+				if err != nil {
+					return nil, fmt.Errorf("cannot parse line %d: %w", linenr, err)
+				}
 			}
 			pkg.Files = append(pkg.Files, tar.Header{
 				Name: fullpath,
-- 
2.43.0


From 12e5a41ed0cc2eb6a7044daa671c5b1b439ec96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 33/35] fix: ParseInstalled: report a database that could not
 be read completely

---
 pkg/apk/installed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index bf8ed1d..b4401e5 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -238,6 +238,8 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 	packages := []*InstalledPackage{}
 
 	indexScanner := bufio.NewScanner(installed)
+	// as long as the lines of an index may be, see ParsePackageIndex
+	indexScanner.Buffer(make([]byte, 16*1024), 1024*1024)
 
 	pkg := &InstalledPackage{}
 	linenr := 1
@@ -377,6 +379,9 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 
 		linenr++
 	}
+	if err := indexScanner.Err(); err != nil {
+		return nil, fmt.Errorf("reading installed packages: %w", err)
+	}
 
 	return packages, nil
 }
-- 
2.43.0


From c29b9f0ca7f0607e785daf7f635afc296845f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 34/35] fix: ParseInstalled: keep the last record of a database
 that has no blank line at its end

---
 pkg/apk/installed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index b4401e5..60fa331 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -382,6 +382,10 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 	if err := indexScanner.Err(); err != nil {
 		return nil, fmt.Errorf("reading installed packages: %w", err)
 	}
+	// the last record need not be followed by a blank line
+	if pkg.Name != "" {
+		packages = append(packages, pkg)
+	}
 
 	return packages, nil
 }
-- 
2.43.0


From 144840c6647b48775b9d91eeb8504e9dcd23d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 35/35] fix: sortTarHeaders: do not recurse into the root
 directory forever

---
 pkg/apk/installed.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 60fa331..17b0462 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -428,6 +428,9 @@ func sortTarHeaders(headers []tar.Header) []tar.Header {
 	for _, header := range headers {
 		// Use a cleaned name for map keys to ensure consistency with lookups later.
 		cleanedName := filepath.Clean(header.Name)
+		if cleanedName == "." {
+			continue // the root directory is above all entries
+		}
 
 		dir := filepath.Dir(cleanedName)
 		directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
-- 
2.43.0

