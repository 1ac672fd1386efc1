From a65e81552a23fc1f20d8199fab9dfdd416fc1bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 01/50] fix: memfs: unlock the directory when MkdirAll meets a
 file

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From b4f3734e3112fe04d985472514098dcbe9f9e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 02/50] fix: memfs: publish files only once their content and
 permissions are set

---
 memfs/memfs.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..01e6c00 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -190,7 +190,7 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, error) {
 	if !fs.ValidPath(path) {
 		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
@@ -220,8 +220,8 @@ func (rootFS *FS) create(path string) (*File, error) {
 
 	newFile := &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(data),
 	}
 	dir.children[filePart] = newFile
 
@@ -241,12 +241,11 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		path = ""
 	}
 
-	f, err := rootFS.create(path)
+	// The file must be complete before it becomes visible to other goroutines.
+	_, err := rootFS.create(path, data, perm)
 	if err != nil {
 		return err
 	}
-	f.content = bytes.NewBuffer(data)
-	f.perm = perm
 	return nil
 }
 
-- 
2.43.0


From 34f2d1e0d7c28c387cb0b2908d1ce020ffc52a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 03/50] fix: memfs: do not alias the slice passed to WriteFile

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 01e6c00..b56c8ed 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -221,7 +221,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	newFile := &File{
 		name:    filePart,
 		perm:    perm,
-		content: bytes.NewBuffer(data),
+		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
 
-- 
2.43.0


From a5f7dc3a975a4bde299b45e25d04400d6334d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 04/50] fix: memfs: keep the permissions of files replaced by
 WriteFile

---
 memfs/memfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b56c8ed..7890609 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -212,10 +212,11 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		existingFile, ok := existing.(*File)
 		if !ok {
 			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+		perm = existingFile.perm
 	}
 
 	newFile := &File{
-- 
2.43.0


From acf65bf375fde1a78997e8c4a12900816ac5f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 05/50] fix: memfs: page through open directories in order,
 each entry once, ending in io.EOF

---
 memfs/memfs.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 7890609..ecc0b8c 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -306,8 +308,9 @@ type dir struct {
 }
 
 type fhDir struct {
-	dir *dir
-	idx int
+	dir   *dir
+	names []string // sorted names at the first call to ReadDir
+	idx   int
 }
 
 func (d *fhDir) Stat() (fs.FileInfo, error) {
@@ -332,19 +335,26 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 	d.dir.mu.Lock()
 	defer d.dir.mu.Unlock()
 
-	names := make([]string, 0, len(d.dir.children))
-	for name := range d.dir.children {
-		names = append(names, name)
+	if d.names == nil {
+		names := make([]string, 0, len(d.dir.children))
+		for name := range d.dir.children {
+			names = append(names, name)
+		}
+		slices.Sort(names)
+		d.names = names
 	}
 
-	if n <= 0 {
-		n = len(names)
+	remaining := d.names[d.idx:]
+	if n > 0 && len(remaining) == 0 {
+		return nil, io.EOF
+	}
+	if n <= 0 || n > len(remaining) {
+		n = len(remaining)
 	}
 
 	out := make([]fs.DirEntry, 0, n)
 
-	for i := d.idx; i < n && i < len(names); i++ {
-		name := names[i]
+	for _, name := range remaining[:n] {
 		child := d.dir.children[name]
 
 		f, isFile := child.(*File)
@@ -366,8 +376,8 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			})
 		}
 
-		d.idx = i
 	}
+	d.idx += n
 	return out, nil
 }
 
-- 
2.43.0


From 5522a65d4c5075e2a0c3d8313415041d7d34fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 06/50] fix: memfs: report the full size of a file after it has
 been read

---
 memfs/memfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index ecc0b8c..6014708 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -224,6 +224,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	newFile := &File{
 		name:    filePart,
 		perm:    perm,
+		size:    int64(len(data)),
 		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
@@ -277,6 +278,7 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 		handle := &File{
 			name:    cc.name,
 			perm:    cc.perm,
+			size:    int64(cc.content.Len()),
 			content: bytes.NewBuffer(cc.content.Bytes()),
 		}
 		return handle, nil
@@ -384,6 +386,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 type File struct {
 	name    string
 	perm    os.FileMode
+	size    int64 // content shrinks as it is read
 	content *bytes.Buffer
 	modTime time.Time
 	closed  bool
@@ -395,7 +398,7 @@ func (f *File) Stat() (fs.FileInfo, error) {
 	}
 	fi := fileInfo{
 		name:    f.name,
-		size:    int64(f.content.Len()),
+		size:    f.size,
 		modTime: f.modTime,
 		mode:    f.perm,
 	}
-- 
2.43.0


From 6cc1de2378d54ce8dd97e1c2e5b04042167d8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 07/50] fix: memfs: accept . and reject invalid paths in Sub

---
 memfs/memfs.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6014708..712b37e 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -294,6 +294,19 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if !fs.ValidPath(path) {
+		return nil, &fs.PathError{
+			Op:   "sub",
+			Path: path,
+			Err:  fs.ErrInvalid,
+		}
+	}
+
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8852fecbab270dadcc70607b8c0f53dd4cd9cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 08/50] fix: tarfs: report failures to write the end of the
 archive

---
 tarfs/create.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..5ef9ce8 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -21,9 +21,8 @@ import (
 // Create creates a tar archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
 	tw := tar.NewWriter(dst)
-	defer tw.Close()
 
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -79,4 +78,10 @@ func Create(dst io.Writer, src fs.FS) error {
 
 		return nil
 	})
+	if err != nil {
+		return err
+	}
+
+	// Writes the trailer.
+	return tw.Close()
 }
-- 
2.43.0


From 7df46c896cd3edd0f26a72e89da1078d4eb471aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 09/50] fix: tarfs: present GNU sparse files as regular files
 in listings

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..b2ec80b 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -341,7 +341,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From d364b066e5568ee85acf35aa598a6c45f8df377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 10/50] fix: tarfs: keep directory entries that precede their
 content

---
 tarfs/tarfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index b2ec80b..955b221 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -84,6 +84,9 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
+			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
+				continue
+			}
 			dirents[dir] = &dirent{
 				Header: tar.Header{
 					Typeflag: tar.TypeDir,
-- 
2.43.0


From 9e30755bd6ae4d2a4f153103e4c17c8559bf7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 11/50] fix: tarfs: do not strip leading dots and spaces from
 names

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 955b221..18aa1e8 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -284,7 +284,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
 
 type file struct {
-- 
2.43.0


From 648aad40e8e3b0bd4b3059dd4247b60000006bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 12/50] fix: tarfs: resolve paths and symlinks as POSIX does,
 and give up on link cycles

---
 tarfs/tarfs.go | 96 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 18aa1e8..ef71785 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -139,7 +139,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	for _, path := range paths {
 		d := dirents[path]
 
-		dir, err := resolve(&root, filepath.Dir(path))
+		dir, err := resolve(&root, filepath.Dir(path), true)
 		if err != nil {
 			return nil, fmt.Errorf("failed to resolve directory %q: %w", filepath.Dir(path), err)
 		}
@@ -151,7 +151,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 }
 
 func (fsys *FS) Open(name string) (fs.File, error) {
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +165,7 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 }
 
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -183,23 +183,15 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 }
 
 func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
-	if sanitizePath(name) == "" {
-		d := &dirent{
-			Header: tar.Header{
-				Typeflag: tar.TypeDir,
-				Name:     ".",
-				Mode:     0o755,
-			},
-		}
-
-		return d.Info()
-	}
-
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
 
+	if name == "" {
+		name = "."
+	}
+
 	// Use the original name (as we may be resolving a symlink).
 	renamed := *d
 	renamed.Header.Name = name
@@ -211,16 +203,11 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) ReadLink(name string) (string, error) {
-	d, err := resolve(&fsys.root, filepath.Dir(name))
+	d, err := resolve(&fsys.root, name, false)
 	if err != nil {
 		return "", err
 	}
 
-	d, found := d.findChild(filepath.Base(name))
-	if !found {
-		return "", fs.ErrNotExist
-	}
-
 	if d.Type()&fs.ModeSymlink == 0 {
 		return "", fs.ErrInvalid
 	}
@@ -232,47 +219,69 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
-	d, err := resolve(&fsys.root, filepath.Dir(name))
+	d, err := resolve(&fsys.root, name, false)
 	if err != nil {
 		return nil, err
 	}
 
-	d, found := d.findChild(filepath.Base(name))
-	if !found {
-		return nil, fs.ErrNotExist
-	}
-
 	return d.Info()
 }
 
-func resolve(root *dirent, name string) (*dirent, error) {
-	d := root
+// maxSymlinks is how many symlinks are followed for one path (as on Linux).
+const maxSymlinks = 40
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+// resolve finds the dirent for the given path, relative to the root directory.
+// A symlink in the last component is only followed if followLast is set.
+func resolve(root *dirent, name string, followLast bool) (*dirent, error) {
+	var links int
+	return walk(root, root, name, followLast, &links)
+}
+
+// walk finds the dirent for the given path, relative to the directory d.
+func walk(root, d *dirent, name string, followLast bool, links *int) (*dirent, error) {
+	components := splitPath(name)
+	for i, component := range components {
+		if !d.IsDir() {
+			return nil, fs.ErrNotExist
+		}
+
+		if component == "." {
+			continue
+		}
+		if component == ".." {
+			// The root directory is its own parent.
+			if d.parent != nil {
+				d = d.parent
+			}
+			continue
+		}
 
-	for _, component := range strings.Split(name, "/") {
 		var found bool
 		d, found = d.findChild(component)
 		if !found {
 			return nil, fs.ErrNotExist
 		}
 
-		if d.Type()&fs.ModeSymlink != 0 {
+		if d.Type()&fs.ModeSymlink != 0 && (followLast || i < len(components)-1) {
 			// Resolve the symlink.
 			target := d.Linkname
+			if target == "" {
+				return nil, fs.ErrNotExist
+			}
+
+			if *links++; *links > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %s", d.Header.Name)
+			}
 
 			var err error
 			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
+				d, err = walk(root, d.parent, target, true, links)
 				if err != nil {
 					return nil, err
 				}
 			} else {
 				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
+				d, err = walk(root, root, target, true, links)
 				if err != nil {
 					return nil, err
 				}
@@ -283,6 +292,17 @@ func resolve(root *dirent, name string) (*dirent, error) {
 	return d, nil
 }
 
+// splitPath returns the non-empty components of a path.
+func splitPath(name string) []string {
+	var components []string
+	for _, component := range strings.Split(filepath.ToSlash(name), "/") {
+		if component != "" {
+			components = append(components, component)
+		}
+	}
+	return components
+}
+
 func sanitizePath(name string) string {
 	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
-- 
2.43.0


From bf50302242110047357943b1bb96149cb854da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 13/50] fix: tarfs: keep symlink targets as recorded

---
 tarfs/tarfs.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index ef71785..028378f 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -72,14 +72,6 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Make archive relative paths absolute.
-		if h.Typeflag == tar.TypeSymlink {
-			if strings.HasPrefix(h.Linkname, "./") {
-				h.Linkname = strings.TrimPrefix(h.Linkname, ".")
-			}
-			h.Linkname = filepath.Clean(h.Linkname)
-		}
-
 		// Create a default directory entry for each parent directory.
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
-- 
2.43.0


From ca102b5a95201053c413802dfdb87b7f5c7030e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 14/50] fix: tarfs: resolve chains of hard links whatever the
 map order, and refuse cycles

---
 tarfs/tarfs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 028378f..42993f8 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -103,6 +103,13 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		if d.Typeflag == tar.TypeLink {
 			name := sanitizePath(d.Linkname)
 			target, ok := dirents[name]
+			// The target can be a hardlink itself.
+			for hops := 0; ok && target.Typeflag == tar.TypeLink; hops++ {
+				if hops > len(dirents) {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: link cycle", name)
+				}
+				target, ok = dirents[sanitizePath(target.Linkname)]
+			}
 			if !ok {
 				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
 			}
-- 
2.43.0


From e3499bf51eed8ec5af9f1994d86950fcc2201d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 15/50] fix: tarfs: allow opening directories that have no
 entry in the archive

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 42993f8..38437fa 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -155,6 +155,11 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	if d.data == nil {
+		// A directory without an entry of its own.
+		return &file{dirent: d, r: strings.NewReader("")}, nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
-- 
2.43.0


From 9e22b95c82041bb6cdbc168798f08b5c913b6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 16/50] fix: tarfs: fail to list what is not a directory

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 38437fa..6f5425d 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -174,6 +174,10 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
+	if !d.IsDir() {
+		return nil, errors.New("not a directory")
+	}
+
 	var children []fs.DirEntry
 	for _, child := range d.children {
 		children = append(children, child)
-- 
2.43.0


From 00de7a14afaaafb1eee5ace11ce5b2256d09b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 17/50] fix: arfs: check both bytes of the entry header
 terminator

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..32d29b4 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -162,7 +162,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From 7f8b81e93402815c8240343b096c9d906972f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 18/50] fix: arfs: refuse negative entry sizes

---
 arfs/arfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 32d29b4..b4e6ee5 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -197,6 +197,10 @@ func parseArEntry(line []byte) (*Entry, error) {
 		*target = int64(intValue)
 	}
 
+	if e.FileSize < 0 {
+		return nil, fmt.Errorf("negative file size: %d", e.FileSize)
+	}
+
 	return &e, nil
 }
 
-- 
2.43.0


From 86ac9e11ee8c9ae9dc32a1617880ff12428a1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 19/50] fix: arfs: accept full reads that come with io.EOF

---
 arfs/arfs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index b4e6ee5..e825ed8 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -69,6 +69,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		line := make([]byte, 60)
 
 		n, err := ra.ReadAt(line, offset)
+		if n == len(line) {
+			// A full read up to the end of the archive may come with io.EOF.
+			err = nil
+		}
 		if err != nil {
 			if errors.Is(err, io.EOF) {
 				break
@@ -208,7 +212,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
+	if n, err := ra.ReadAt(header, 0); err != nil && n != len(header) {
 		return 0, err
 	}
 	if string(header) != "!<arch>\n" {
-- 
2.43.0


From f7e887dfc351a15bf26b77c39f5b224517cb434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 20/50] fix: arfs: report truncated entry headers

---
 arfs/arfs.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index e825ed8..8fedca3 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -74,16 +74,17 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			err = nil
 		}
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			// Tolerate a stray newline at the end.
+			if errors.Is(err, io.EOF) && (n == 0 || n == 1 && line[0] == '\n') {
 				break
 			}
+			if errors.Is(err, io.EOF) {
+				return nil, io.ErrUnexpectedEOF
+			}
 
 			return nil, err
 		}
 
-		if n == 1 && line[0] == '\n' {
-			return nil, io.EOF
-		}
 		if n != 60 {
 			return nil, errors.New("short read")
 		}
-- 
2.43.0


From b9f9d0d8c2e359f609d3586579f86234cd621862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 21/50] fix: arfs: report truncated file content instead of a
 clean end of file

---
 arfs/arfs.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 8fedca3..f2e5a81 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -100,7 +100,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 
 		begin := offset + int64(n)
 		e.data = func() io.Reader {
-			return io.NewSectionReader(ra, begin, e.FileSize)
+			return &contentReader{r: io.NewSectionReader(ra, begin, e.FileSize), remaining: e.FileSize}
 		}
 		offset += int64(n) + e.FileSize + (e.FileSize % 2)
 
@@ -226,6 +226,21 @@ func sanitizePath(name string) string {
 	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
 }
 
+// contentReader reads the content of an entry and reports when it is truncated.
+type contentReader struct {
+	r         io.Reader
+	remaining int64
+}
+
+func (c *contentReader) Read(p []byte) (n int, err error) {
+	n, err = c.r.Read(p)
+	c.remaining -= int64(n)
+	if errors.Is(err, io.EOF) && c.remaining > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 type file struct {
 	*Entry
 	io.Reader
-- 
2.43.0


From b68fb2719487c0110ba14ee7ef3883065ba586e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 22/50] fix: arfs: do not strip leading dots and spaces from
 names

---
 arfs/arfs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index f2e5a81..644b370 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -94,7 +94,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, err
 		}
 
-		if strings.Contains(e.Filename, "/") {
+		if strings.Contains(e.Filename, "/") || e.Filename == "" || e.Filename == "." || e.Filename == ".." {
 			return nil, fmt.Errorf("invalid filename: %s", e.Filename)
 		}
 
@@ -180,7 +180,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(string(line[0:16])),
+		Filename: strings.TrimSuffix(strings.TrimRight(string(line[0:16]), " "), "/"),
 		FileMode: fileMode,
 	}
 
@@ -223,7 +223,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(filepath.ToSlash(filepath.Clean("/"+filepath.ToSlash(name))), "/")
 }
 
 // contentReader reads the content of an entry and reports when it is truncated.
-- 
2.43.0


From 8a5ffaf585d77d811f0faf7a60f9ca9eb9eb6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 23/50] fix: arfs: refuse to write entries the header can not
 represent

---
 arfs/create.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..40f7874 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"io/fs"
 	"strconv"
+	"strings"
 )
 
 // Create creates an ar(1) archive from the given filesystem.
@@ -70,17 +71,30 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
+	if name != hdr.Name || strings.HasSuffix(name, " ") {
+		return fmt.Errorf("file name can not be represented: %q", hdr.Name)
+	}
 
 	// Construct the ar(1) header
-	arHeader := fmt.Sprintf(
-		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-		name,
-		strconv.Itoa(int(hdr.ModTime.Unix())),
-		strconv.Itoa(hdr.Uid),
-		strconv.Itoa(hdr.Gid),
-		fmt.Sprintf("%07o", hdr.Mode),
-		fmt.Sprintf("%-10d", hdr.Size),
-	)
+	var arHeader string
+	for _, field := range []struct {
+		value string
+		width int
+	}{
+		{name, 16},
+		{strconv.Itoa(int(hdr.ModTime.Unix())), 12},
+		{strconv.Itoa(hdr.Uid), 6},
+		{strconv.Itoa(hdr.Gid), 6},
+		{fmt.Sprintf("%07o", hdr.Mode), 8},
+		{strconv.FormatInt(hdr.Size, 10), 10},
+	} {
+		// The columns have a fixed width in bytes.
+		if len(field.value) > field.width {
+			return fmt.Errorf("value %q is too long for the header of %s", field.value, name)
+		}
+		arHeader += field.value + strings.Repeat(" ", field.width-len(field.value))
+	}
+	arHeader += "`\n"
 
 	// Write the ar header to the output
 	if _, err := io.WriteString(w, arHeader); err != nil {
-- 
2.43.0


From 8ea2ed2485770c24b6be243fc23c7c6a70d72080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 24/50] fix: arfs: fail when a file does not have the size
 recorded in its header

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 40f7874..9a72c6e 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -118,6 +118,10 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 		return err
 	}
 
+	if n != size {
+		return fmt.Errorf("size of %s changed: expected %d bytes, got %d", path, size, n)
+	}
+
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
 		if _, err := io.WriteString(w, "\n"); err != nil {
-- 
2.43.0


From a7f952fa0bee304ed40b14e3e83c13b31ee6087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 25/50] fix: arfs: do not turn special files into regular files

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 9a72c6e..8ca1c1f 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -40,6 +40,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return errors.New("symlinks are not supported")
 		}
 
+		if !d.Type().IsRegular() {
+			return errors.New("special files are not supported")
+		}
+
 		fi, err := d.Info()
 		if err != nil {
 			return err
-- 
2.43.0


From 3e4f02b5c3b1542a745fd6e745586862699a4042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 26/50] fix: erofs: return errors from reading inodes instead
 of panicking for good

---
 erofs/constants.go | 19 +++++++++++++++++++
 erofs/erofs.go     | 33 +++++++++++++++++----------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..ad12937 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -43,6 +43,25 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 	}
 }
 
+func fileModeFromFileType(typ uint8) fs.FileMode {
+	switch typ {
+	case FT_DIR:
+		return fs.ModeDir
+	case FT_CHRDEV:
+		return fs.ModeCharDevice
+	case FT_BLKDEV:
+		return fs.ModeDevice
+	case FT_FIFO:
+		return fs.ModeNamedPipe
+	case FT_SOCK:
+		return fs.ModeSocket
+	case FT_SYMLINK:
+		return fs.ModeSymlink
+	default:
+		return 0
+	}
+}
+
 // Values for mode_t.
 const (
 	S_IFMT   = 0170000
diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..e6a5265 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -31,7 +31,7 @@ import (
 	"io/fs"
 	"path/filepath"
 	"strings"
-	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -236,12 +236,11 @@ func (f *file) Stat() (fs.FileInfo, error) {
 }
 
 type dirEntry struct {
-	image         *Image
-	name          string
-	typ           uint8
-	nid           uint64
-	readInodeOnce sync.Once
-	inode         *Inode
+	image *Image
+	name  string
+	typ   uint8
+	nid   uint64
+	inode atomic.Pointer[Inode]
 }
 
 func (de *dirEntry) Name() string {
@@ -255,7 +254,7 @@ func (de *dirEntry) IsDir() bool {
 func (de *dirEntry) Type() fs.FileMode {
 	ino, err := de.getInode()
 	if err != nil {
-		return 0
+		return fileModeFromFileType(de.typ)
 	}
 
 	return ino.Mode()
@@ -294,15 +293,17 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 }
 
 func (de *dirEntry) getInode() (Inode, error) {
-	de.readInodeOnce.Do(func() {
-		ino, err := de.image.Inode(de.nid)
-		if err != nil {
-			panic(err)
-		}
-		de.inode = &ino
-	})
+	if ino := de.inode.Load(); ino != nil {
+		return *ino, nil
+	}
+
+	ino, err := de.image.Inode(de.nid)
+	if err != nil {
+		return Inode{}, err
+	}
+	de.inode.Store(&ino)
 
-	return *de.inode, nil
+	return ino, nil
 }
 
 type fileInfo struct {
-- 
2.43.0


From 8340010aeaa1201ed832c9de7407e882a1653913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 27/50] fix: erofs: do not inline the data of empty files

---
 erofs/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..8349a65 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,7 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From 8a022dbdf2084be49f513d591eff178983329dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 28/50] fix: erofs: write all directory entries in alphabetical
 order

---
 erofs/writer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 8349a65..c9d2243 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"time"
 )
 
@@ -367,6 +368,9 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			names = append(names, de.Name())
 		}
 
+		// Lookups rely on the order, and some names sort before "." and "..".
+		sort.Sort(&direntsByName{dirents: dirents, names: names})
+
 		buf, err := encodeDirents(dirents, names)
 		if err != nil {
 			return nil, 0, fmt.Errorf("failed to encode directory entries: %w", err)
@@ -394,6 +398,19 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 	}
 }
 
+// direntsByName sorts dirents by their names.
+type direntsByName struct {
+	dirents []Dirent
+	names   []string
+}
+
+func (d *direntsByName) Len() int           { return len(d.names) }
+func (d *direntsByName) Less(i, j int) bool { return d.names[i] < d.names[j] }
+func (d *direntsByName) Swap(i, j int) {
+	d.dirents[i], d.dirents[j] = d.dirents[j], d.dirents[i]
+	d.names[i], d.names[j] = d.names[j], d.names[i]
+}
+
 func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
-- 
2.43.0


From 8c56a07968bbc24fdb4cd36595fd16cec349ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 29/50] fix: erofs: record the inode numbers of . and ..
 entries

---
 erofs/writer.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index c9d2243..bf9c03c 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -335,11 +335,23 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
+		// Not allocated yet in the first pass, which only needs the size.
+		nidOf := func(path string) uint64 {
+			switch ino := w.inodes[path].(type) {
+			case InodeCompact:
+				return uint64(ino.Ino)
+			case InodeExtended:
+				return uint64(ino.Ino)
+			default:
+				return 0
+			}
+		}
+
+		dirents := []Dirent{{Nid: nidOf(path), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
 		names := []string{"."}
 
 		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
+			dirents = append(dirents, Dirent{Nid: nidOf(filepath.Dir(path)), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
 			names = append(names, "..")
 		}
 
-- 
2.43.0


From 97cf38e4a9db3d4429f98e13b7f2dfb6675275e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 30/50] fix: erofs: accept any amount of padding in directory
 blocks

---
 erofs/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..4ce8db7 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -689,7 +689,11 @@ func (ino *Inode) getBlockDataInfo(blockIdx uint64) blockData {
 func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, lastDirent bool) ([]byte, error) {
 	var nameLen uint32
 	if lastDirent {
-		nameLen = block.size - uint32(d.NameOff)
+		if uint32(d.NameOff) > block.size {
+			return nil, errors.New("corrupted dirent")
+		}
+		// There may be more padding than the longest name takes.
+		nameLen = min(block.size-uint32(d.NameOff), MaxNameLen)
 	} else {
 		next, err := ino.image.direntAt(direntOff + DirentSize)
 		if err != nil {
-- 
2.43.0


From cfb949d277ec9fb3c91c0559f804d794262218b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 31/50] fix: erofs: fail when data changes size between
 computing the layout and writing it

---
 erofs/writer.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index bf9c03c..c4bdb89 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -219,7 +219,7 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			err = copyData(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data, ino)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
@@ -254,7 +254,7 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		err = copyData(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data, ino)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
@@ -264,6 +264,30 @@ func (w *writer) writeData() error {
 	return nil
 }
 
+// copyData writes the data of an inode, which must have the size it had when
+// the layout of the image was computed.
+func copyData(dst io.Writer, data io.Reader, ino any) error {
+	var size int64
+	switch ino := ino.(type) {
+	case InodeCompact:
+		size = int64(ino.Size)
+	case InodeExtended:
+		size = int64(ino.Size)
+	default:
+		return fmt.Errorf("unsupported inode type %T", ino)
+	}
+
+	n, err := io.Copy(dst, io.LimitReader(data, size+1))
+	if err != nil {
+		return err
+	}
+	if n != size {
+		return fmt.Errorf("size changed while writing the image: expected %d bytes", size)
+	}
+
+	return nil
+}
+
 func (w *writer) populateInodes() error {
 	w.inodes = map[string]any{}
 
-- 
2.43.0


From 3b15fd91624ac2e433033608a523c769795ab584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 32/50] fix: erofs: make readers verify the superblock checksum
 that is written

---
 erofs/writer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index c4bdb89..cbd3ad8 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -71,6 +71,7 @@ func (w *writer) write() error {
 
 	sb := SuperBlock{
 		Magic:         SuperBlockMagicV1,
+		FeatureCompat: FeatureCompatSuperBlockChecksum,
 		BlockSizeBits: BlockSizeBits,
 		Inodes:        uint64(len(w.inodes)),
 		Blocks:        uint32(1 + (metaSize+dataSize)/BlockSize),
@@ -82,7 +83,14 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to calculate superblock checksum: %w", err)
 	}
 
-	if err := binary.Write(io.NewOffsetWriter(w.dst, SuperBlockOffset), binary.LittleEndian, &sb); err != nil {
+	// The checksum covers the rest of the block too, so write all of it.
+	block := bytes.NewBuffer(make([]byte, SuperBlockOffset, BlockSize))
+	if err := binary.Write(block, binary.LittleEndian, &sb); err != nil {
+		return fmt.Errorf("failed to encode superblock: %w", err)
+	}
+	block.Write(make([]byte, BlockSize-block.Len()))
+
+	if _, err := w.dst.WriteAt(block.Bytes(), 0); err != nil {
 		return fmt.Errorf("failed to write superblock: %w", err)
 	}
 
-- 
2.43.0


From e58b129da5581bdf6f4f34d2018a853e33c96cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 33/50] fix: erofs: refuse images with unusable block sizes

---
 erofs/reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 4ce8db7..7e2a4d9 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -228,6 +228,11 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	// From the smallest device sector to the largest page size in use.
+	if i.sb.BlockSizeBits < 9 || i.sb.BlockSizeBits > 16 {
+		return fmt.Errorf("unsupported block size bits: %d", i.sb.BlockSizeBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
-- 
2.43.0


From 3ef4cea1a5e6666a995288f64f8c2dde2bdda18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 34/50] fix: erofs: verify superblock checksums of images with
 small blocks

---
 erofs/reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 7e2a4d9..91b7a5c 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -261,8 +261,14 @@ func (i *Image) verifyChecksum() error {
 	table := crc32.MakeTable(crc32.Castagnoli)
 	checksum := crc32.Checksum(marshalledSb.Bytes(), table)
 
+	// The checksum covers the rest of the block, or a whole block if blocks are
+	// not larger than the offset of the superblock.
 	off := SuperBlockOffset + int64(binary.Size(i.sb))
-	if buf, err := i.bytesAt(off, int64(i.BlockSize())-off); err != nil {
+	end := int64(i.BlockSize())
+	if end <= SuperBlockOffset {
+		end += SuperBlockOffset
+	}
+	if buf, err := i.bytesAt(off, end-off); err != nil {
 		return errors.New("image size is too small")
 	} else {
 		checksum = ^crc32.Update(checksum, table, buf)
-- 
2.43.0


From b81a8e601b358c9e4c7ff697e8f838f625e2f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 35/50] fix: erofs: refuse inodes with impossible sizes

---
 erofs/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 91b7a5c..d6335c4 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -39,6 +39,7 @@ import (
 	"hash/crc32"
 	"io"
 	"io/fs"
+	"math"
 )
 
 const (
@@ -430,6 +431,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 	}
 
 	blockSize := int64(i.BlockSize())
+	if inode.size > math.MaxInt64-uint64(blockSize) {
+		return Inode{}, fmt.Errorf("invalid size at inode %d: %d", nid, inode.size)
+	}
 	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
 
 	switch dataLayout := inode.DataLayout(); dataLayout {
-- 
2.43.0


From a413aa8a5cc446a8c8fe0488e712640aaa4e5f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 36/50] fix: erofs: accept full reads that come with io.EOF

---
 erofs/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index d6335c4..f535d8f 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -461,7 +461,11 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
+	// A full read up to the end of the image may come with io.EOF.
+	if read, err := i.src.ReadAt(buf, off); err != nil && read != len(buf) {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 	return buf, nil
-- 
2.43.0


From 6483328efefed4aa57105b978614586a8030e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 37/50] fix: erofs: report truncated images instead of a clean
 end of file

---
 erofs/reader.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index f535d8f..d9a6c56 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -474,6 +474,9 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 func (i *Image) unmarshalFrom(off int64, data any) error {
 	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),
 		binary.LittleEndian, data); err != nil {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
 		return err
 	}
 
@@ -634,15 +637,15 @@ func (ino *Inode) GID() uint32 {
 func (ino *Inode) Data() (io.Reader, error) {
 	switch dataLayout := ino.DataLayout(); dataLayout {
 	case InodeDataLayoutFlatPlain:
-		return io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil
+		return newDataReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil
 
 	case InodeDataLayoutFlatInline:
 		readers := make([]io.Reader, 0, 2)
 		idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)
 		if ino.size > idataSize {
-			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
+			readers = append(readers, newDataReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
 		}
-		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
+		readers = append(readers, newDataReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
 		return io.MultiReader(readers...), nil
 
 	default:
@@ -650,6 +653,25 @@ func (ino *Inode) Data() (io.Reader, error) {
 	}
 }
 
+// dataReader reads a section of the image and reports when it is truncated.
+type dataReader struct {
+	r         io.Reader
+	remaining int64
+}
+
+func newDataReader(src io.ReaderAt, off, n int64) *dataReader {
+	return &dataReader{r: io.NewSectionReader(src, off, n), remaining: n}
+}
+
+func (dr *dataReader) Read(p []byte) (n int, err error) {
+	n, err = dr.r.Read(p)
+	dr.remaining -= int64(n)
+	if errors.Is(err, io.EOF) && dr.remaining > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 // blockData represents the information of the data in a block.
 type blockData struct {
 	// base indicates the data offset within the image.
-- 
2.43.0


From 8d7db4e4a0cb4c588f6db6d946a59af8e7111c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 38/50] fix: erofs: resolve paths and symlinks as POSIX does,
 and give up on link cycles

---
 erofs/erofs.go | 55 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index e6a5265..abf36f7 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -27,6 +27,7 @@ package erofs
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 	"path/filepath"
@@ -41,6 +42,9 @@ var (
 	_ fs.StatFS    = (*Filesystem)(nil)
 )
 
+// maxSymlinks is how many symlinks are followed for one path (as on Linux).
+const maxSymlinks = 40
+
 type Filesystem struct {
 	image *Image
 	root  *dirEntry
@@ -57,6 +61,7 @@ func Open(src io.ReaderAt) (*Filesystem, error) {
 		image: image,
 		root: &dirEntry{
 			image: image,
+			name:  ".",
 			nid:   image.RootNid(),
 			typ:   FT_DIR,
 		},
@@ -169,8 +174,35 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
 	de := fsys.root
 
+	// The directories passed on the way to de, outermost first.
+	var parents []*dirEntry
+	var links int
+
 	components := splitPath(name)
-	for i, comp := range components {
+	for len(components) > 0 {
+		comp := components[0]
+		components = components[1:]
+
+		dir, err := de.getInode()
+		if err != nil {
+			return nil, err
+		}
+		if !dir.IsDir() {
+			return nil, fs.ErrNotExist
+		}
+
+		if comp == "." {
+			continue
+		}
+		if comp == ".." {
+			// The root directory is its own parent.
+			if len(parents) > 0 {
+				de = parents[len(parents)-1]
+				parents = parents[:len(parents)-1]
+			}
+			continue
+		}
+
 		child, err := de.lookup(comp)
 		if err != nil {
 			return nil, err
@@ -181,25 +213,28 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 			return nil, err
 		}
 
-		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
+		if ino.IsSymlink() && !(noResolveLastSymlink && len(components) == 0) {
 			link, err := ino.Readlink()
 			if err != nil {
 				return nil, err
 			}
-			link = filepath.Clean(link)
+			if link == "" {
+				return nil, fs.ErrNotExist
+			}
 
-			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
+			if links++; links > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %s", name)
 			}
 
-			child, err = fsys.resolve(link, noResolveLastSymlink)
-			if err != nil {
-				return nil, err
+			if strings.HasPrefix(link, "/") {
+				de = fsys.root
+				parents = nil
 			}
+			components = append(splitPath(link), components...)
+			continue
 		}
 
+		parents = append(parents, de)
 		de = child
 	}
 	return de, nil
-- 
2.43.0


From 1ea3a47a049e299b32ce4076693ca107c1f540d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 39/50] fix: erofs: do not turn special files into regular
 files

---
 erofs/constants.go | 8 ++++----
 erofs/reader.go    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index ad12937..a27aa94 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -32,7 +32,7 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
@@ -48,7 +48,7 @@ func fileModeFromFileType(typ uint8) fs.FileMode {
 	case FT_DIR:
 		return fs.ModeDir
 	case FT_CHRDEV:
-		return fs.ModeCharDevice
+		return fs.ModeDevice | fs.ModeCharDevice
 	case FT_BLKDEV:
 		return fs.ModeDevice
 	case FT_FIFO:
@@ -87,13 +87,13 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
 	case fs.ModeSocket:
 		stMode |= S_IFSOCK
-	default:
+	case 0:
 		stMode |= S_IFREG
 	}
 
diff --git a/erofs/reader.go b/erofs/reader.go
index d9a6c56..eb4db1a 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -605,7 +605,7 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
-- 
2.43.0


From 4e6be0cbe2fb70345de059f6f7d8ad8d8c0cfe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 40/50] fix: erofs: present the setuid, setgid and sticky bits

---
 erofs/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index eb4db1a..4d17b84 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -620,6 +620,16 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeSymlink
 	}
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
+
 	return mode
 }
 
-- 
2.43.0


From 3117f175cec34419a180dda5840171a38ac6c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 41/50] fix: erofs: present the nanoseconds of modification
 times

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index abf36f7..1930abd 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -360,7 +360,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
-- 
2.43.0


From 0c903d9090206bed7c16c40d3f4b4e95e1961158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 42/50] fix: erofs: refuse to write names that can not be read
 back

---
 erofs/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index cbd3ad8..77c2ab3 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -388,6 +388,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		}
 
 		for _, de := range entries {
+			if len(de.Name()) > MaxNameLen {
+				return nil, 0, fmt.Errorf("file name too long: %q", de.Name())
+			}
+
 			path := filepath.Clean(filepath.Join(path, de.Name()))
 
 			ino, ok := w.inodes[path]
-- 
2.43.0


From 817eba5adc88b5f9354eb9459eab9dfb0e663ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 43/50] fix: erofs: refuse to write symlink targets that can
 not be read back

---
 erofs/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 77c2ab3..923be78 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -437,6 +437,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
 		}
 
+		// Readers cut off longer targets, as Linux does.
+		if len(target) >= BlockSize {
+			return nil, 0, fmt.Errorf("symlink target of %q is too long", path)
+		}
+
 		return io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil
 
 	// TODO: device files, named pipes, sockets, etc.
-- 
2.43.0


From 414e4472f5ed72cb25834c9c39c711d5c3e34834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 44/50] fix: erofs: do not overflow the link count of compact
 inodes

---
 erofs/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 923be78..aaeaf50 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -468,7 +468,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
 	// Can we use a compact inode?
-	compact := fi.Size() <= math.MaxUint32 &&
+	compact := fi.Size() <= math.MaxUint32 && nlink <= math.MaxUint16 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
 		fi.ModTime() == time.Time{}
 
-- 
2.43.0


From dee13ea8bb5d5294a6dfdeea455d882f42667566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 45/50] fix: erofs: read long symlink targets of images with
 small blocks

---
 erofs/reader.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 4d17b84..e834ca9 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -915,22 +915,15 @@ func (ino *Inode) Readlink() (string, error) {
 	if !ino.IsSymlink() {
 		return "", fs.ErrInvalid
 	}
-	off := int64(ino.dataOff)
-	size := int64(ino.size)
-	if ino.idataOff != 0 {
-		// Inline symlink data shouldn't cross block boundary.
-		if ino.blocks > 1 {
-			return "", fmt.Errorf("inline data cross block boundary at inode %d", ino.Nid())
-		}
-		off = int64(ino.idataOff)
-	} else {
-		// This matches Linux's behaviour in fs/namei.c:page_get_link() and
-		// include/linux/namei.h:nd_terminate_link().
-		if size > int64(ino.image.BlockSize())-1 {
-			size = int64(ino.image.BlockSize()) - 1
-		}
+	data, err := ino.Data()
+	if err != nil {
+		return "", err
 	}
-	target, err := ino.image.bytesAt(off, size)
+	// This matches Linux's behaviour in fs/namei.c:page_get_link() and
+	// include/linux/namei.h:nd_terminate_link(), which cut off targets at the
+	// page size, whatever the block size of the image is.
+	limit := int64(max(ino.image.BlockSize(), BlockSize)) - 1
+	target, err := io.ReadAll(io.LimitReader(data, limit))
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From f2c5e7bcdd877d557e22416295ab6ddb61a99883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 46/50] fix: memfs: directory entries report only type bits as
 their type

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 712b37e..09e20b0 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -486,7 +486,7 @@ func (de *dirEntry) IsDir() bool {
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-	return de.info.Mode()
+	return de.info.Mode().Type()
 }
 
 func (de *dirEntry) Info() (fs.FileInfo, error) {
-- 
2.43.0


From b722762a68e357fd589a511faca931406e019b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:32 +0000
Subject: [PATCH 47/50] fix: erofs: give the root directory an entry for its
 parent

---
 erofs/writer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index aaeaf50..57698a1 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -379,13 +379,12 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			}
 		}
 
-		dirents := []Dirent{{Nid: nidOf(path), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
-		names := []string{"."}
-
-		if path != "." {
-			dirents = append(dirents, Dirent{Nid: nidOf(filepath.Dir(path)), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
-			names = append(names, "..")
+		// The root directory is its own parent.
+		dirents := []Dirent{
+			{Nid: nidOf(path), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))},
+			{Nid: nidOf(filepath.Dir(path)), FileType: uint8(fileTypeFromFileMode(fs.ModeDir))},
 		}
+		names := []string{".", ".."}
 
 		for _, de := range entries {
 			if len(de.Name()) > MaxNameLen {
-- 
2.43.0


From 00208cc079551492cab77077f2d7066dc07b6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 48/50] fix: tarfs: refuse entries of negative size

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 6f5425d..a4cec18 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -51,6 +51,11 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, err
 		}
 
+		// The tar package only checks this for entries with content.
+		if h.Size < 0 {
+			return nil, fmt.Errorf("negative file size: %s, %d", h.Name, h.Size)
+		}
+
 		switch h.Typeflag {
 		case tar.TypeReg, tar.TypeGNUSparse:
 			// Discard the file contents (so that the reader is consumed).
-- 
2.43.0


From 3b1144cacd9c653e00fff391030f78d46cc600d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 49/50] fix: erofs: refuse file names with NUL bytes

Readers end the last name of a directory block at the first NUL byte, so Create
reported success for images that present such a file under another name.
---
 erofs/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 57698a1..e02e64d 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -391,6 +391,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 				return nil, 0, fmt.Errorf("file name too long: %q", de.Name())
 			}
 
+			// Readers take it for the end of the name.
+			if bytes.IndexByte([]byte(de.Name()), 0) != -1 {
+				return nil, 0, fmt.Errorf("file name contains a NUL byte: %q", de.Name())
+			}
+
 			path := filepath.Clean(filepath.Join(path, de.Name()))
 
 			ino, ok := w.inodes[path]
-- 
2.43.0


From 2f4b0cb92417c488c3d35a92a7f032e241e2431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 50/50] fix: arfs: refuse file names with NUL bytes

Other readers take a NUL byte for the end of the name.
---
 arfs/create.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/create.go b/arfs/create.go
index 8ca1c1f..5e7c4cf 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -75,7 +75,7 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
-	if name != hdr.Name || strings.HasSuffix(name, " ") {
+	if name != hdr.Name || strings.HasSuffix(name, " ") || strings.Contains(name, "\x00") {
 		return fmt.Errorf("file name can not be represented: %q", hdr.Name)
 	}
 
-- 
2.43.0

