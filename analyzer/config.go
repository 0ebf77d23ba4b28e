package main

import (
	"go/build"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A build configuration in which the module consists of other source files
// than on the host.
type buildConfig struct {
	goos, goarch, tags string
}

func (c buildConfig) String() string {
	s := c.goos + "/" + c.goarch
	if c.tags != "" {
		s += " tags=" + c.tags
	}
	return s
}

var platforms = []buildConfig{
	{"linux", "amd64", ""}, {"linux", "386", ""}, {"linux", "arm64", ""}, {"linux", "arm", ""},
	{"windows", "amd64", ""}, {"windows", "386", ""}, {"windows", "arm64", ""},
	{"darwin", "amd64", ""}, {"darwin", "arm64", ""},
	{"freebsd", "amd64", ""}, {"netbsd", "amd64", ""}, {"openbsd", "amd64", ""},
	{"solaris", "amd64", ""}, {"aix", "ppc64", ""}, {"plan9", "amd64", ""}, {"linux", "s390x", ""},
}

// otherConfigs returns one configuration for every set of source files the
// module can consist of, except that of the host, and the number of
// configurations looked at.
func otherConfigs(dir string) (out []buildConfig, looked int) {
	var files []string
	tags := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != dir && (n == "vendor" || n == "testdata" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
			b, _ := os.ReadFile(p)
			for _, l := range strings.Split(string(b), "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "package ") {
					break
				}
				if !strings.HasPrefix(l, "//go:build") && !strings.HasPrefix(l, "// +build") {
					continue
				}
				for _, w := range strings.FieldsFunc(l[2:], func(r rune) bool { return strings.ContainsRune(" \t,()!&|", r) }) {
					if !knownTag(w) {
						tags[w] = true
					}
				}
			}
		}
		return nil
	})
	sort.Strings(files)
	set := func(c buildConfig) string {
		ctx := build.Default
		ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = c.goos, c.goarch, false
		if c.tags != "" {
			ctx.BuildTags = []string{c.tags}
		}
		var l []string
		for _, f := range files {
			if ok, _ := ctx.MatchFile(filepath.Dir(f), filepath.Base(f)); ok {
				l = append(l, f)
			}
		}
		return strings.Join(l, "\n")
	}
	seen := map[string]bool{set(buildConfig{build.Default.GOOS, build.Default.GOARCH, ""}): true}
	looked = 1
	cands := append([]buildConfig{}, platforms...)
	var tl []string
	for t := range tags {
		tl = append(tl, t)
	}
	sort.Strings(tl)
	for _, t := range tl {
		cands = append(cands, buildConfig{build.Default.GOOS, build.Default.GOARCH, t})
	}
	for _, c := range cands {
		looked++
		if k := set(c); !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out, looked
}

func knownTag(w string) bool {
	switch w {
	case "go:build", "+build", "cgo", "gc", "gccgo", "unix", "ignore":
		return true
	}
	if strings.HasPrefix(w, "go1.") {
		return true
	}
	for _, c := range platforms {
		if w == c.goos || w == c.goarch {
			return true
		}
	}
	return false
}
