package apk

// pkg: pkg/apk
// Oracle: the documented criteria, compared one after the other as keys.

import (
	"fmt"
	"testing"
)

type v05cand struct {
	name, ver, pin, uri, origin string
	prio                        uint64
	provides                    []string
}

func v05better(x, y bool) int {
	if x == y {
		return 0
	}
	if x {
		return -1
	}
	return 1
}

func v05ver(s, t string) int {
	a, ae := ParseVersion(s)
	b, be := ParseVersion(t)
	switch {
	case ae != nil && be != nil:
		return 0
	case ae != nil:
		return 1
	case be != nil:
		return -1
	}
	switch {
	case versionGreater.satisfies(a, b):
		return -1
	case versionLess.satisfies(a, b):
		return 1
	}
	return 0
}

func v05offered(c v05cand, name string) string {
	if name == "" || name == c.name {
		return c.ver
	}
	for _, p := range c.provides {
		d := resolvePackageNameVersionPin(p)
		if d.name == name {
			if d.version == "" {
				return c.ver
			}
			return d.version
		}
	}
	return ""
}

func TestVerifC05(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	vers := []string{"1", "1.0", "1.2", "1.2.1", "2", "2_rc1", "1.2-r1", "bad version", "1.x", "", "0.1", "1.2"}
	provs := []string{"v", "v=1", "v=1.2", "v=2", "v=bad version", "v=x.y", "w=1.2.1", "v=3@edge"}
	for i := 0; i < h.n(25000) && h.more(); i++ {
		repos := map[string]*RepositoryWithIndex{}
		repo := func(u string) *RepositoryWithIndex {
			if repos[u] == nil {
				repos[u] = (&Repository{URI: u}).WithIndex(&APKIndex{})
			}
			return repos[u]
		}
		var pkgs []*repositoryPackage
		spec := map[*repositoryPackage]v05cand{}
		for k := h.rnd.Intn(4); k >= 0; k-- {
			c := v05cand{name: h.pick("a", "b", "v"), ver: h.pick(vers...), pin: h.pick("", "", "edge"), uri: h.pick("https://r/one", "https://r/two"), origin: h.pick("", "o", "p")}
			if h.rnd.Intn(4) == 0 {
				c.prio = uint64(h.rnd.Intn(3))
			}
			if h.rnd.Intn(10) == 0 {
				c.prio = 1 << 63
			}
			for j := h.rnd.Intn(3); j > 0; j-- {
				c.provides = append(c.provides, h.pick(provs...))
			}
			rp := &repositoryPackage{RepositoryPackage: NewRepositoryPackage(&Package{Name: c.name, Version: c.ver, Origin: c.origin, ProviderPriority: c.prio, Provides: append([]string{}, c.provides...)}, repo(c.uri)), pinnedName: c.pin}
			pkgs = append(pkgs, rp)
			spec[rp] = c
		}
		var with *RepositoryPackage
		wu, wo := "", ""
		if h.rnd.Intn(3) == 0 {
			wu, wo = h.pick("https://r/one", "https://r/three"), h.pick("", "o")
			with = NewRepositoryPackage(&Package{Name: "w", Version: "1", Origin: wo}, repo(wu))
		}
		name := h.pick("v", "a", "")
		pin := h.pick("", "edge", "other")
		existing := map[string]*RepositoryPackage{}
		exv := map[string]string{}
		if h.rnd.Intn(3) == 0 {
			n, v := h.pick("a", "b", "v"), h.pick(vers...)
			existing[n] = NewRepositoryPackage(&Package{Name: n, Version: v}, repo("https://r/one"))
			exv[n] = v
		}
		origins := map[string]bool{}
		if h.rnd.Intn(3) == 0 {
			origins["o"] = h.rnd.Intn(4) > 0
			if h.rnd.Intn(2) == 0 {
				origins[h.pick("", "p")] = h.rnd.Intn(4) > 0
			}
		}
		sel := func(c v05cand) bool { v, ok := exv[c.name]; return ok && v == c.ver }
		order := func(x, y *repositoryPackage) int {
			a, b := spec[x], spec[y]
			var ks []int
			if with != nil {
				ks = append(ks, v05better(a.uri == wu, b.uri == wu), v05better(a.origin == wo, b.origin == wo))
			}
			ks = append(ks, v05better(sel(a), sel(b)), v05better(origins[a.origin], origins[b.origin]), v05better(a.pin == pin, b.pin == pin))
			if a.prio != b.prio {
				ks = append(ks, v05better(a.prio > b.prio, b.prio > a.prio))
			}
			ks = append(ks, v05ver(v05offered(a, name), v05offered(b, name)), v05ver(a.ver, b.ver))
			if a.name != b.name {
				ks = append(ks, v05better(a.name < b.name, b.name < a.name))
			}
			for _, k := range ks {
				if k != 0 {
					return k
				}
			}
			return 0
		}
		var desc []v05cand
		for _, p := range pkgs {
			desc = append(desc, spec[p])
		}
		in := fmt.Sprintf("candidates %+v for name %q pin %q existing %v origins %v compare repo %q origin %q", desc, name, pin, exv, origins, wu, wo)
		h.eval("%s", in)
		h.guard("panic", in, func() {
			p := NewPkgResolver(nil, nil) //nolint
			cmp := p.comparePackages(with, name, existing, origins, pin)
			for _, a := range pkgs {
				for _, b := range pkgs {
					w := order(a, b)
					if g := cmp(a, b); (g < 0) != (w < 0) || (g > 0) != (w > 0) {
						h.fail("compare", in, "comparing %+v with %+v gives %d, should be %d", spec[a], spec[b], g, w)
					}
				}
			}
			r := p.bestPackage(pkgs, with, name, existing, origins, pin)
			for _, q := range pkgs {
				if order(q, r) < 0 {
					h.fail("best", in, "chose %+v although %+v is preferred", spec[r], spec[q])
				}
			}
			s := append([]*repositoryPackage{}, pkgs...)
			p.sortPackages(s, with, name, existing, origins, pin)
			seen := map[*repositoryPackage]bool{}
			for k := range s {
				seen[s[k]] = true
				if k > 0 && order(s[k], s[k-1]) < 0 {
					h.fail("sort", in, "sorted list puts %+v before %+v", spec[s[k-1]], spec[s[k]])
				}
			}
			if len(s) != len(pkgs) || len(seen) != len(pkgs) {
				h.fail("sort", in, "sorting lost candidates")
			}
		})
	}
}
