package vh

import (
	"context"
	"crypto/x509"
	"fmt"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C20"] = checkC20 }

func checkC20(r *Run) {
	pools()
	r.Bubbles("chains", r.Tier(500, 6000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		prefix := Pick(g, []string{"athenz://role/", "athenz://role/", "spiffe://a.test/ra/", "athenz://", "spiffe://A.Test/RA/"})
		domains := []string{"dom.a", "dom.b", "dom"}
		glued := g.P(25) // pairs of a domain and a role whose texts join to the same
		if glued {
			domains = []string{"dom.a", "dom.ab", "dom"}
		}
		names := []string{"r1", "r2", "r3", "team/sub", "r1x", "writer.all", "R1", "R2", "r1:role.r2", "r1/", "r1/r2", "a:role.", "/r1", "r1:x", "r1."}
		if glued {
			names = []string{"r1", "br1", ".ar1", ".abr1", "br2", "r2", "/r1"}
		}
		crowd := g.P(12) // many roles in many names
		if crowd {
			for k := 0; k < 40; k++ {
				names = append(names, fmt.Sprint("m", k))
			}
		}
		all := map[string][]Ass{}
		for _, d := range domains {
			for n := g.Range(0, 8); n > 0; n-- {
				all[d] = append(all[d], Ass{d + ":role." + Pick(g, names), Pick(g, []string{"read", "*", "w*"}), d + ":" + Pick(g, []string{"obj", "*", "o?j"}), Pick(g, []string{"allow", "allow", "allow", "deny"})})
			}
			for n := g.Range(0, 25); crowd && n > 0; n-- {
				all[d] = append(all[d], Ass{d + ":role." + Pick(g, names), "read", d + ":" + Pick(g, []string{"obj", "*"}), Pick(g, []string{"allow", "allow", "allow", "allow", "allow", "allow", "allow", "allow", "allow", "deny"})})
			}
			w.ServePolicy(w.Doc(d, time.Now().Add(4000*time.Hour), all[d]))
		}
		az := w.Authz(domains, authorizerd.WithRoleCertURIPrefix(prefix), authorizerd.WithDisableJwkd())
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		type spec struct {
			CN   string
			URIs []string
		}
		for k := 0; k < 30; k++ {
			var specs []spec
			var certs []*x509.Certificate
			carried := map[string]map[string]bool{}
			add := func(d, n string) {
				if carried[d] == nil {
					carried[d] = map[string]bool{}
				}
				carried[d][n] = true
			}
			pool := append([]string{}, domains...)
			pool = append(pool, "unknown")
			certsN, urisN, more := g.Range(0, 3), 5, 55
			if crowd && g.P(70) {
				certsN, urisN, more = Pick(g, []int{1, 1, 2, 10, 30}), 60, Pick(g, []int{0, 90, 97})
			}
			for n := certsN; n > 0; n-- {
				s := spec{}
				switch g.N(8) {
				case 0, 1, 2, 3:
					d, nm := Pick(g, pool), Pick(g, names)
					s.CN = d + ":role." + nm
					add(d, nm)
				case 4:
					s.CN = Pick(g, []string{"user.a", "dom.a:policy.x", "dom.a.role.r1", "dom.a:roles.r1", ""})
				}
				for g.P(more) && len(s.URIs) < urisN {
					d, nm := Pick(g, pool), Pick(g, names)
					switch g.N(7) {
					case 0:
						u := Pick(g, []string{"spiffe://dom.a/sa/r1", "https://athenz.test/role/dom.a/r1", "x" + prefix + d + "/" + nm, strings.TrimSuffix(prefix, "/") + "x/" + d + "/" + nm, "urn:athenz:role/" + d + "/" + nm, strings.Replace(prefix, "r", "R", 1) + d + "/" + nm, strings.ToLower(prefix) + d + "/" + nm})
						s.URIs = append(s.URIs, u)
						if strings.HasPrefix(u, prefix) { // with the short prefix
							l := strings.SplitN(strings.TrimPrefix(u, prefix), "/", 2)
							if len(l) == 2 {
								add(l[0], l[1])
							}
						}
					case 1:
						s.URIs = append(s.URIs, prefix+d)
					default:
						s.URIs = append(s.URIs, prefix+d+"/"+nm)
						add(d, nm)
					}
				}
				specs = append(specs, s)
				nb := time.Now().Add(-time.Hour)
				if g.P(10) {
					nb = nb.Add(-1000 * time.Hour)
				}
				certs = append(certs, CertSpec{CN: s.CN, Issuer: Pick(g, []string{"ca", "ca2"}), URIs: s.URIs, NotBefore: nb}.Make())
			}
			act, res := Pick(g, []string{"read", "write", "list"}), Pick(g, []string{"obj", "other"})
			want := false
			desc := ""
			for _, d := range sortedKeys(carried) {
				dec, _ := decide(all[d], d, sortedKeys(carried[d]), act, res)
				desc += fmt.Sprintf("%s %v: %v; ", d, sortedKeys(carried[d]), dec)
				want = want || dec == Allow
				r.Count("domain decisions "+dec.String(), 1)
			}
			if len(carried) == 0 {
				r.Count("no role carried", 1)
			}
			for _, l := range carried {
				r.Count("more than 20 roles of a domain", b2i(len(l) > 20))
			}
			r.Count("more than 4 certificates", b2i(len(certs) > 4))
			r.Count(map[bool]string{true: "authorized", false: "rejected"}[want], 1)
			r.Eval(len(carried) > 0, prefix, specs, all, act, res)
			for rep := 0; rep < 4; rep++ {
				err := az.VerifyRoleCert(ctx, certs, act, res)
				if (err == nil) != want {
					r.Violate(i, "chain", "prefix %q certificates %+v request %q %q: error %v, expected authorized %v (%s) in repetition %d\npolicies %v", prefix, specs, act, res, err, want, desc, rep, all)
					return
				}
				certs = Shuffle(g, certs)
				if g.P(40) && len(certs) > 0 {
					certs = append(certs, Pick(g, certs))
				}
			}
		}
	})
	r.Need("authorized", 500)
	r.Need("rejected", 500)
	r.Need("no role carried", 200)
	r.Need("more than 20 roles of a domain", 100)
	r.Need("more than 4 certificates", 100)
	r.Need("domain decisions deny", 200)
}
