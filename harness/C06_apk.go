package apk

// pkg: pkg/apk
// Oracle: direct reading of the universe: who is named or provides what, and which requirements are met.

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"testing"
)

func v06Meets(p *Package, req string) bool {
	c := resolvePackageNameVersionPin(req)
	named, vers := p.Name == c.name, []string{p.Version}
	for _, pr := range p.Provides {
		q := resolvePackageNameVersionPin(pr)
		named = named || q.name == c.name
		if q.version != "" {
			vers = append(vers, q.version)
		}
	}
	if !named || c.dep == versionAny {
		return named
	}
	want, err := ParseVersion(c.version)
	if err != nil {
		return false
	}
	for _, v := range vers {
		if got, err := ParseVersion(v); err == nil && c.dep.satisfies(got, want) {
			return true
		}
	}
	return false
}

func v06Run(h *vh, sets [][]*Package, reqs []string) {
	var show []string
	var all []*Package
	for k, set := range sets {
		for _, p := range set {
			show = append(show, fmt.Sprintf("[%d] %s-%s depends %q provides %q install_if %q", k, p.Name, p.Version, p.Dependencies, p.Provides, p.InstallIf))
			all = append(all, p)
		}
	}
	in := fmt.Sprintf("packages %s; requested %q", strings.Join(show, "; "), reqs)
	h.eval("%s", in)
	versions := map[string]int{}
	var before []Package
	for _, p := range all {
		versions[p.Name]++
		c := *p
		c.Dependencies, c.Provides, c.InstallIf = append([]string{}, p.Dependencies...), append([]string{}, p.Provides...), append([]string{}, p.InstallIf...)
		before = append(before, c)
	}
	h.guard("panic", in, func() {
		var idx []NamedIndex
		listed := map[*Package]string{}
		for k, set := range sets {
			uri := fmt.Sprintf("https://r/%d", k)
			ix := NewNamedRepositoryWithIndex("", (&Repository{URI: uri}).WithIndex(&APKIndex{Packages: set}))
			for _, p := range set {
				listed[p] = uri + "/"
			}
			idx = append(idx, ix)
		}
		asked := append([]string{}, reqs...)
		got, _, err := NewPkgResolver(context.Background(), idx).GetPackagesWithDependencies(context.Background(), asked)
		for k, p := range all {
			c := *p
			c.Dependencies, c.Provides, c.InstallIf = append([]string{}, p.Dependencies...), append([]string{}, p.Provides...), append([]string{}, p.InstallIf...)
			if !reflect.DeepEqual(c, before[k]) {
				h.fail("index", in, "the package %s-%s of the index was changed to %+v", before[k].Name, before[k].Version, c)
			}
		}
		if !reflect.DeepEqual(asked, reqs) {
			h.fail("requests", in, "the list of requests was changed to %q", asked)
		}
		meetable := func(req string) bool {
			for _, p := range all {
				if v06Meets(p, req) {
					return true
				}
			}
			return false
		}
		for _, r := range reqs {
			if !strings.HasPrefix(r, "!") && !meetable(r) && err == nil {
				h.fail("unmet", in, "nothing meets the request %q, yet resolution succeeded with %v", r, v06Names(got))
			}
		}
		if err != nil {
			return
		}
		names := map[string]bool{}
		for _, rp := range got {
			if rp == nil || listed[rp.Package] == "" || !strings.HasPrefix(rp.URL(), listed[rp.Package]) {
				h.fail("foreign", in, "returned %v, which is not a package of the indexes", rp)
				return
			}
			if names[rp.Name] {
				h.fail("unique", in, "two packages named %s are returned: %v", rp.Name, v06Names(got))
			}
			names[rp.Name] = true
		}
		// met: a returned package meets it; where a name has several versions, one of the name of a package that meets it
		met := func(req string) bool {
			for _, p := range all {
				if names[p.Name] && v06Meets(p, req) {
					return true
				}
			}
			return false
		}
		for _, r := range reqs {
			if !met(r) {
				h.fail("request", in, "the request %q is not met by %v", r, v06Names(got))
			}
		}
		for _, rp := range got {
			pulled := false
			for _, r := range reqs {
				pulled = pulled || v06Meets(rp.Package, r)
			}
			for _, q := range all {
				for _, d := range q.Dependencies {
					pulled = pulled || names[q.Name] && !strings.HasPrefix(d, "!") && v06Meets(rp.Package, d)
				}
			}
			if pulled && len(rp.InstallIf) == 0 && versions[rp.Name] == 1 { // what only an install-if rule pulls in does not pull in its own dependencies
				for _, d := range rp.Dependencies {
					own := false // a package that provides the name itself needs nothing more
					for _, pr := range rp.Provides {
						own = own || resolvePackageNameVersionPin(pr).name == resolvePackageNameVersionPin(d).name
					}
					if !own && !strings.HasPrefix(d, "!") && !met(d) {
						h.fail("dependency", in, "the dependency %q of %s-%s is not met by %v", d, rp.Name, rp.Version, v06Names(got))
					}
				}
			}
			if !pulled {
				ok := len(rp.InstallIf) > 0
				for _, s := range rp.InstallIf {
					ok = ok && names[resolvePackageNameVersionPin(s).name]
				}
				if !ok {
					h.fail("unasked", in, "%s-%s is returned although nothing requires it (returned %v)", rp.Name, rp.Version, v06Names(got))
				}
			}
			for _, s := range rp.InstallIf { // version of a fully met rule, where the name has only one version
				c := resolvePackageNameVersionPin(s)
				for _, q := range got {
					if !pulled && q.Name == c.name && versions[q.Name] == 1 && c.version != "" && q.Version != c.version {
						h.fail("installif", in, "%s-%s is returned although its install-if entry %q is not met (%s-%s)", rp.Name, rp.Version, s, q.Name, q.Version)
					}
				}
			}
		}
	})
}

func v06Names(l []*RepositoryPackage) (out []string) {
	for _, rp := range l {
		if rp == nil {
			out = append(out, "nil")
			continue
		}
		out = append(out, rp.Name+"-"+rp.Version)
	}
	return
}

func TestVerifC06(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	pk := func(n, v string, deps, prov, iff string) *Package {
		return &Package{Name: n, Version: v, Dependencies: strings.Fields(deps), Provides: strings.Fields(prov), InstallIf: strings.Fields(iff)}
	}
	v06Run(h, [][]*Package{{pk("a", "1", "b", "", ""), pk("b", "1", "a", "", "")}}, []string{"a"})
	v06Run(h, [][]*Package{{pk("a", "1", "virt", "", ""), pk("b", "1", "", "virt=2", ""), pk("c", "1", "", "", "a b")}}, []string{"a"})
	v06Run(h, [][]*Package{{pk("a", "1", "b>1", "", ""), pk("b", "1", "", "", ""), pk("b", "2", "", "", "")}}, []string{"a"})
	v06Run(h, [][]*Package{{pk("a", "1", "b>2", "", ""), pk("b", "1", "", "", ""), pk("b", "2", "", "", "")}}, []string{"a"})
	v06Run(h, [][]*Package{{pk("t", "1", "a b", "", ""), pk("a", "1", "", "", ""), pk("b", "1", "", "", ""), pk("x", "1", "", "", "a b=1"), pk("y", "1", "", "", "a b=2"), pk("z", "1", "", "", "a q")}}, []string{"t"})
	name := []string{"a", "b", "c", "d", "e", "f"}
	for i := 0; i < h.n(150000) && h.more(); i++ {
		single := h.rnd.Intn(2) == 0
		seen := map[string]bool{}
		var sets [][]*Package
		req := func() string {
			s := h.pick(append(name, "v", "w")...)
			switch h.rnd.Intn(6) {
			case 0:
				s += h.pick("=1", "=2", ">1", ">=2", "<2", "~1", "=1.1", "<=1")
			}
			return s
		}
		for k := 1 + h.rnd.Intn(2); k > 0; k-- {
			var set []*Package
			for j := 2 + h.rnd.Intn(6); j > 0; j-- {
				p := &Package{Name: h.pick(name...), Version: h.pick("1", "2", "1.1")}
				if seen[p.Name+"-"+p.Version] || single && seen[p.Name] {
					continue
				}
				seen[p.Name], seen[p.Name+"-"+p.Version] = true, true
				for d := h.rnd.Intn(3); d > 0; d-- {
					r := req()
					if h.rnd.Intn(8) == 0 {
						r = "!" + r
					}
					p.Dependencies = append(p.Dependencies, r)
				}
				if h.rnd.Intn(3) == 0 {
					p.Provides = append(p.Provides, h.pick("v", "w", "v=1", "w=2", "v=1.1"))
				}
				if h.rnd.Intn(4) == 0 {
					for d := 1 + h.rnd.Intn(2); d > 0; d-- {
						p.InstallIf = append(p.InstallIf, h.pick(name...)+h.pick("", "", "=1", "=2"))
					}
				}
				set = append(set, p)
			}
			sets = append(sets, set)
		}
		var reqs []string
		for k := 1 + h.rnd.Intn(2); k > 0; k-- {
			reqs = append(reqs, req())
		}
		v06Run(h, sets, reqs)
	}
}
