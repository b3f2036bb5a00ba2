package fs

// pkg: pkg/fs
// unprivileged
// Oracle: a snapshot of everything around the base directory, and of what reading operations return.

import (
	"crypto/sha1"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"golang.org/x/sys/unix"
)

const v14secret = "SECRET-OUTSIDE"

// v14around lists everything below top that is not below base.
func v14around(top, base string) string {
	var out []string
	_ = filepath.WalkDir(top, func(p string, d iofs.DirEntry, err error) error {
		if p == base {
			return filepath.SkipDir
		}
		if err != nil {
			out = append(out, p+" "+err.Error())
			return nil
		}
		fi, err := os.Lstat(p)
		if err != nil {
			out = append(out, p+" "+err.Error())
			return nil
		}
		st := ""
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			st = fmt.Sprintf("%x", sha1.Sum(b))
		} else if fi.Mode()&os.ModeSymlink != 0 {
			st, _ = os.Readlink(p)
		}
		var u unix.Stat_t
		_ = unix.Lstat(p, &u)
		out = append(out, fmt.Sprintf("%s %v %s %d links=%d", strings.TrimPrefix(p, top), fi.Mode(), st, u.Uid, func() uint64 {
			if fi.IsDir() {
				return 0
			}
			return uint64(u.Nlink)
		}()))
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func v14make(top, baseName string) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	base := filepath.Join(top, "p", baseName)
	for _, d := range []string{base, base + "-other/sub", base + "x", filepath.Join(top, "p", "q"), filepath.Join(top, "cwd"), filepath.Join(base, "d")} {
		must(os.MkdirAll(d, 0o755))
	}
	for _, f := range []string{base + "-other/file", base + "x/file", filepath.Join(top, "p", "q", "file"), filepath.Join(top, "p", "file"), filepath.Join(top, "file"), filepath.Join(top, "cwd", "file"), filepath.Join(top, "cwd", "locked")} {
		must(os.WriteFile(f, []byte(v14secret+strings.Repeat("x", 7000)), 0o640))
	}
	for _, f := range []string{"file", "d/file"} {
		must(os.WriteFile(filepath.Join(base, f), []byte("inside"), 0o644))
	}
	must(os.WriteFile(filepath.Join(base, "locked"), []byte("inside"), 0o000))
}

func TestVerifC14(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	top0, err := os.MkdirTemp("", "v14")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(top0)
	cwd0, _ := os.Getwd()
	defer func() { _ = os.Chdir(cwd0) }()

	names := []string{"file", "d", "d/new", "new", "locked", "../file", "../q/file", "../q", "../q/new", "/../file", "d/../../file", "d/../../q/new", "../base-other/file", "../base-other", "../base-other/new",
		"../basex/file", "../basex/new", "../base-other/sub", "../base/file", "../base/new2", "..", "../..", "../../file", "../new", "../../cwd/file", "../../cwd/new", "/", ".", "./file", "/file", "a/./../../q/new", "../../p/base/../file", "../../p/base-other/new", "d//../../basex/new", "../basex", "BASE/../file", "BASE-other/file", "BASE-other/new", "BASE/../basex/new", "BASE/../../cwd/new", "BASE/file"}
	ops := []string{"Open", "OpenReaderAt", "OpenFileR", "OpenFileC", "OpenFileW", "Stat", "Lstat", "Create", "Remove", "ReadDir", "ReadFile", "WriteFile", "Readnod", "Readlink", "LinkOld", "LinkNew", "Symlink", "MkdirAll", "Mkdir", "Chmod", "Chown", "Mknod", "SetXattr", "GetXattr", "RemoveXattr", "ListXattrs"}

	run := 0
	world := func(baseForm int, ci bool) (FullFS, string, string) {
		run++
		top := filepath.Join(top0, fmt.Sprintf("r%d", run))
		v14make(top, "base")
		base := filepath.Join(top, "p", "base")
		arg := base
		switch baseForm {
		case 1:
			arg = base + "/"
		case 2:
			arg = filepath.Join(top, "p") + "/./base/../base"
		case 3:
			_ = os.Chdir(filepath.Join(top, "p"))
			arg = "base"
		case 4:
			_ = os.Chdir(filepath.Join(top, "p"))
			arg = "./base"
		case 5:
			_ = os.Chdir(base)
			arg = "."
		case 6:
			_ = os.Chdir(filepath.Join(base, "d"))
			arg = ".."
		}
		if baseForm < 3 {
			_ = os.Chdir(filepath.Join(top, "cwd"))
		}
		f := DirFS(arg, DirFSWithCaseSensitive(!ci))
		if f == nil {
			panic("DirFS: nil")
		}
		return f, top, base
	}
	// leak reports content of something outside the base
	apply := func(f FullFS, op, p string) (leak string) {
		read := func(x iofs.File, err error) {
			if err != nil || x == nil {
				return
			}
			b, _ := io.ReadAll(x)
			if strings.Contains(string(b), v14secret) {
				leak = "content " + v14secret
			}
			_ = x.Close()
		}
		size := func(fi iofs.FileInfo, err error) {
			if err == nil && fi != nil && !fi.IsDir() && fi.Size() > 7000 {
				leak = fmt.Sprintf("size %d", fi.Size())
			}
		}
		switch op {
		case "Open":
			x, err := f.Open(p)
			read(x, err)
		case "OpenReaderAt":
			x, err := f.OpenReaderAt(p)
			if err == nil {
				read(x, err)
			}
		case "OpenFileR":
			x, err := f.OpenFile(p, os.O_RDONLY, 0o644)
			if err == nil {
				read(x, err)
			}
		case "OpenFileC", "OpenFileW":
			flag := os.O_RDWR | os.O_TRUNC
			if op == "OpenFileC" {
				flag |= os.O_CREATE
			}
			x, err := f.OpenFile(p, flag, 0o600)
			if err == nil {
				_, _ = x.Write([]byte("evil"))
				_ = x.Close()
			}
		case "Stat":
			size(f.Stat(p))
		case "Lstat":
			size(f.Lstat(p))
		case "Create":
			x, err := f.Create(p)
			if err == nil {
				_, _ = x.Write([]byte("evil"))
				_ = x.Close()
			}
		case "Remove":
			_ = f.Remove(p)
		case "ReadDir":
			des, err := f.ReadDir(p)
			if err == nil {
				for _, de := range des {
					size(de.Info())
				}
			}
		case "ReadFile":
			b, _ := f.ReadFile(p)
			if strings.Contains(string(b), v14secret) {
				leak = "content " + v14secret
			}
		case "WriteFile":
			_ = f.WriteFile(p, []byte("evil"), 0o600)
		case "Readnod":
			_, _ = f.Readnod(p)
		case "Readlink":
			_, _ = f.Readlink(p)
		case "LinkOld":
			if f.Link(p, "hard") == nil {
				b, _ := f.ReadFile("hard")
				if strings.Contains(string(b), v14secret) {
					leak = "hard link to " + v14secret
				}
			}
		case "LinkNew":
			_ = f.Link("file", p)
		case "Symlink":
			_ = f.Symlink("target", p)
		case "MkdirAll":
			_ = f.MkdirAll(p, 0o711)
		case "Mkdir":
			_ = f.Mkdir(p, 0o711)
		case "Chmod":
			_ = f.Chmod(p, 0o604)
		case "Chown":
			_ = f.Chown(p, os.Getuid(), os.Getgid())
		case "Mknod":
			_ = f.Mknod(p, unix.S_IFIFO|0o600, 0)
		case "SetXattr":
			_ = f.SetXattr(p, "user.a", []byte("v"))
		case "GetXattr":
			_, _ = f.GetXattr(p, "user.a")
		case "RemoveXattr":
			_ = f.RemoveXattr(p, "user.a")
		case "ListXattrs":
			_, _ = f.ListXattrs(p)
		}
		return leak
	}
	// one history: prepare the in-memory side so that refusals there do not hide the disk side
	history := func(form int, ci bool, hist [][2]string) {
		f, top, base := world(form, ci)
		defer func() { _ = os.Chdir(cwd0); _ = filepath.WalkDir(top, func(p string, _ iofs.DirEntry, _ error) error { _ = os.Chmod(p, 0o700); return nil }); _ = os.RemoveAll(top) }()
		before := v14around(top, base)
		in := fmt.Sprintf("base form %d, case-insensitive %v, operations %q", form, ci, hist)
		h.eval("%s", in)
		for i, o := range hist {
			leak := ""
			o[1] = strings.ReplaceAll(o[1], "BASE", base)
			h.guard("panic", in, func() { leak = apply(f, o[0], o[1]) })
			key := o[0]
			if leak != "" {
				h.fail(key, in, "operation %d (%s %q) returned %s, which lies outside the base directory", i, o[0], o[1], leak)
				return
			}
			if now := v14around(top, base); now != before {
				d := ""
				bl := map[string]bool{}
				for _, l := range strings.Split(before, "\n") {
					bl[l] = true
				}
				for _, l := range strings.Split(now, "\n") {
					if !bl[l] {
						d += " now: " + l
					}
				}
				h.fail(key, in, "operation %d (%s %q) changed files outside the base directory:%s", i, o[0], o[1], d)
				return
			}
		}
	}
	skip := func(p string, ci bool) bool { return ci && p == "" }
	for _, form := range []int{0, 3, 5, 6, 1} {
		for _, op := range ops {
			for _, p := range names {
				if !h.more() || skip(p, false) {
					continue
				}
				if form != 0 && form != 5 && !strings.Contains(p, "..") && !strings.Contains(p, "BASE") {
					continue
				}
				history(form, false, [][2]string{{op, p}})
			}
		}
	}
	// prepared: the in-memory side knows the directories
	for _, op := range ops {
		for _, p := range []string{"../q/file", "../base-other/file", "../basex/new", "../file"} {
			if h.more() {
				history(h.rnd.Intn(7), false, [][2]string{{"MkdirAll", ".."}, {"MkdirAll", filepath.Dir(p)}, {"WriteFile", p}, {op, p}})
			}
		}
	}
	for i := 0; i < h.n(300) && h.more(); i++ {
		var hist [][2]string
		for k := 0; k < 1+h.rnd.Intn(5); k++ {
			p := names[h.rnd.Intn(len(names))]
			if h.rnd.Intn(4) == 0 {
				p = filepath.ToSlash(h.pick("", "/", "./", "d/", "../", "..//")) + h.pick("..", "../..", "d/..", "../../p", ".") + "/" + names[h.rnd.Intn(len(names))]
			}
			if strings.Count(p, "..") > 8 {
				continue
			}
			hist = append(hist, [2]string{ops[h.rnd.Intn(len(ops))], p})
		}
		ci := h.rnd.Intn(3) == 0
		history(h.rnd.Intn(7), ci, hist)
	}
	for _, in := range h.hints {
		if len(in) < 200 && !strings.Contains(in, "\x00") && strings.Count(in, "..") < 4 && h.more() {
			history(0, false, [][2]string{{"WriteFile", in}, {"ReadFile", in}, {"Remove", in}})
		}
	}
}
