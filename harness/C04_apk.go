package apk

// pkg: pkg/apk
// Oracle: the documented admission rule, evaluated candidate by candidate.

import (
	"fmt"
	"testing"
)

type v04cand struct {
	name, ver, pin, uri string
	provides            []string
	dq                  bool
}

func TestVerifC04(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	vers := []string{"1", "1.0", "1.2", "1.2.1", "2", "2_rc1", "1.2-r1", "bad version", "1.x", "0.1"}
	provs := []string{"v", "v=1", "v=1.2", "v=2", "v=bad version", "w=1.2.1", "v>1", "v=3@edge"}
	pins := []string{"", "", "edge", "beta", "testing"}
	ops := []versionDependency{versionAny, versionEqual, versionGreater, versionLess, versionGreaterEqual, versionLessEqual, versionTilde}
	for i := 0; i < h.n(40000) && h.more(); i++ {
		repos := map[string]*RepositoryWithIndex{}
		var pkgs []*repositoryPackage
		var spec []v04cand
		dq := map[*RepositoryPackage]string{}
		for k := h.rnd.Intn(5); k >= 0; k-- {
			c := v04cand{name: h.pick("a", "b"), ver: h.pick(vers...), pin: h.pick(pins...), uri: h.pick("https://r/one", "https://r/two"), dq: h.rnd.Intn(6) == 0}
			for j := h.rnd.Intn(3); j > 0; j-- {
				c.provides = append(c.provides, h.pick(provs...))
			}
			if repos[c.uri] == nil {
				repos[c.uri] = (&Repository{URI: c.uri}).WithIndex(&APKIndex{})
			}
			rp := NewRepositoryPackage(&Package{Name: c.name, Version: c.ver, Provides: append([]string{}, c.provides...)}, repos[c.uri])
			if c.dq {
				dq[rp] = "because"
			}
			pkgs = append(pkgs, &repositoryPackage{RepositoryPackage: rp, pinnedName: c.pin})
			spec = append(spec, c)
		}
		allow, prefer := h.pick("", "edge", "beta"), h.pick("", "edge", "testing")
		op := ops[h.rnd.Intn(len(ops))]
		req := h.pick(vers...)
		if op == versionAny && h.rnd.Intn(2) == 0 {
			req = ""
		}
		var inst *RepositoryPackage
		instURL := ""
		if h.rnd.Intn(3) == 0 {
			j := h.rnd.Intn(len(spec))
			inst = NewRepositoryPackage(&Package{Name: spec[j].name, Version: spec[j].ver}, repos[spec[j].uri])
			instURL = spec[j].uri + "/" + spec[j].name + "-" + spec[j].ver
		}
		in := fmt.Sprintf("candidates %+v required %v %q allowed pin %q preferred pin %q installed %q", spec, op, req, allow, prefer, instURL)
		h.eval("%s", in)
		var want []int
		for j, c := range spec {
			if c.dq {
				continue
			}
			if c.pin != "" && c.pin != allow && c.pin != prefer && !(inst != nil && instURL == c.uri+"/"+c.name+"-"+c.ver) {
				continue
			}
			if op != versionAny {
				rv, err := ParseVersion(req)
				if err != nil {
					continue
				}
				av, err := ParseVersion(c.ver)
				if err != nil {
					continue
				}
				ok := op.satisfies(av, rv)
				for _, p := range c.provides {
					if d := resolvePackageNameVersionPin(p); d.version != "" {
						if pv, err := ParseVersion(d.version); err == nil && op.satisfies(pv, rv) {
							ok = true
						}
					}
				}
				if !ok {
					continue
				}
			}
			want = append(want, j)
		}
		h.guard("panic", in, func() {
			p := NewPkgResolver(nil, nil) //nolint
			for round := 0; round < 2; round++ { // the second call answers from the memo tables
				before := append([]*repositoryPackage{}, pkgs...)
				got := p.filterPackages(pkgs, dq, withAllowPin(allow), withPreferPin(prefer), withVersion(req, op), withInstalledPackage(inst))
				bad := len(got) != len(want)
				for k := 0; !bad && k < len(want); k++ {
					bad = got[k] != pkgs[want[k]]
				}
				if bad {
					var g []int
					for _, q := range got {
						for j := range pkgs {
							if pkgs[j] == q {
								g = append(g, j)
							}
						}
					}
					h.fail("filter", in, "admitted candidates %v, should be %v (call %d)", g, want, round+1)
				}
				for j := range pkgs {
					if pkgs[j] != before[j] {
						h.fail("input", in, "the candidate list was changed at %d", j)
					}
				}
			}
		})
	}
}
