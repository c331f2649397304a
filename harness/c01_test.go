package vh

import (
	"context"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"github.com/AthenZ/athenz/libs/go/zmssvctoken"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"

	"verifharness/pt"
)

func init() { checks["C01"] = checkC01 }

func perturbed() bool { return os.Getenv("VERIF_PERTURB") != "" }

// perturbOn starts an epoch of schedule perturbation in real time.
func perturbOn(g *Rng, hot ...int) {
	if perturbed() {
		pt.Enable(g.U64(), hot...)
	}
}

// perturbYield perturbs schedules inside of bubbles of virtual time.
func perturbYield(r *Run) {
	if perturbed() {
		pt.EnableYield(mix64(r.Seed))
	}
}

// ptReport adds what the perturbation of the schedule did.
func ptReport(r *Run) {
	s, y, d := pt.Stats()
	r.Count("instrumented statements reached", s)
	r.Count("injected yields", int(y))
	r.Count("injected delays", int(d))
}

type c01Gen struct {
	g         *Rng
	domain    string
	roles     []string
	actions   []string
	resources []string
	mild      bool // few deny assertions, so that many roles are authorized together
}

func newC01Gen(g *Rng) *c01Gen {
	c := &c01Gen{g: g, domain: Pick(g, []string{"dom", "home.user", "Sports.API"})}
	n := g.Range(1, 5)
	if g.P(6) {
		n = g.Range(20, 90)
		c.mild = g.P(60)
	}
	for i := 0; i < n; i++ {
		c.roles = append(c.roles, fmt.Sprintf("r%d", i))
		if g.P(20) {
			// names easily taken for another role's
			c.roles = append(c.roles, fmt.Sprintf(Pick(g, []string{"R%d", "r%d.x", "r%d:x", "r%d-x", "r%d_x", "r%d/x", "xr%d", ":role.r%d", " r%d", "r%d ", "\tr%d", "r%d.", "r%d*", "r%d?"}), i))
		}
	}
	c.actions = Shuffle(g, []string{"read", "write", "*", "re?d", "r*", "READ", "delete"})[:g.Range(2, 5)]
	c.resources = Shuffle(g, []string{"obj", "obj1", "obj*", "*", "o?j", "a:b", "Obj", "path/x", "path/*"})[:g.Range(2, 6)]
	return c
}

func (c *c01Gen) effect() string {
	g := c.g
	if g.P(35) && (!c.mild || g.P(3)) {
		return Pick(g, []string{"deny", "DENY", "Deny", "dEnY"})
	}
	return Pick(g, []string{"allow", "ALLOW", "Allow"})
}

func (c *c01Gen) ass() Ass {
	g := c.g
	dom := c.domain
	if g.P(8) {
		dom = Pick(g, []string{"other", c.domain + "x", "do?", "*", c.domain + ".sub", "sys." + c.domain, c.domain + " ", c.domain + ".", ""})
	} else if g.P(10) {
		dom = upper(c.domain)
	}
	return Ass{c.domain + ":role." + Pick(g, c.roles), Pick(g, c.actions), dom + ":" + Pick(g, c.resources), c.effect()}
}

// vary makes a text which is easily taken for s.
func vary(g *Rng, s string) string {
	switch g.N(6) {
	case 0, 1:
		return upper(s)
	case 2:
		i := g.N(len(s))
		return s[:i] + upper(s[i:])
	case 3:
		return s + Pick(g, []string{" ", "*", "?", ".", "/", ":", "x"})
	case 4:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	}
	return strings.ReplaceAll(s, s[len(s)-1:], Pick(g, []string{"*", "?", "x"}))
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func (c *c01Gen) policies() [][]Ass {
	g := c.g
	n := g.Range(0, 14)
	if len(c.roles) > 10 || g.P(8) {
		n = g.Range(60, 300)
	}
	var all []Ass
	for i := 0; i < n; i++ {
		a := c.ass()
		all = append(all, a)
		// the same assertion again, maybe with the other effect: the pair is the interesting case
		for g.P(30) {
			b := a
			if g.P(70) {
				b.Effect = c.effect()
			}
			all = append(all, b)
		}
		for g.P(12) {
			// the same but for one part, which differs by its case or its ends
			b := a
			x := Pick(g, []*string{&b.Role, &b.Role, &b.Action, &b.Resource})
			*x = vary(g, *x)
			if b.Effect = c.effect(); g.P(50) {
				b.Effect = a.Effect
			}
			if rl, ok := strings.CutPrefix(b.Role, c.domain+":role."); ok && x == &b.Role {
				c.roles = append(c.roles, rl)
			}
			if strings.Contains(b.Resource, ":") && !strings.HasSuffix(b.Resource, ":") {
				all = append(all, b)
			}
		}
	}
	for g.P(25) {
		// different assertions, the same once their parts are joined
		d, x := Pick(g, []string{":", ",", " ", "/", "|", "-", "_", ".", "", "#"}), c.ass()
		if g.P(70) {
			z := c.domain + ":" + Pick(g, []string{"z", "obj", "", "*"})
			all = append(all, Ass{x.Role, x.Action + d + z, x.Resource, c.effect()}, Ass{x.Role, x.Action, z + d + x.Resource, c.effect()})
		} else {
			y := Pick(g, []string{"x", "read"})
			all = append(all, Ass{x.Role + d + y, x.Action, x.Resource, c.effect()}, Ass{x.Role, y + d + x.Action, x.Resource, c.effect()})
		}
	}
	if len(c.roles) > 10 && g.P(60) {
		// most roles allowed for the same request, one denied maybe
		x := c.ass()
		for _, rl := range c.roles {
			if g.P(85) {
				all = append(all, Ass{c.domain + ":role." + rl, x.Action, x.Resource, "allow"})
			}
		}
		if g.P(60) {
			all = append(all, Ass{c.domain + ":role." + Pick(g, c.roles), x.Action, x.Resource, "deny"})
		}
	}
	all = Shuffle(g, all)
	pols := make([][]Ass, g.Range(1, 6))
	if g.P(30) {
		pols = make([][]Ass, len(all)+1)
	}
	for _, a := range all {
		i := g.N(len(pols))
		pols[i] = append(pols[i], a)
	}
	return pols
}

func (c *c01Gen) request() (roles []string, action, resource string) {
	g := c.g
	p := Pick(g, []int{60, 60, 60, 25, 95})
	for _, r := range c.roles {
		if g.P(p) {
			roles = append(roles, r)
		}
	}
	if g.P(15) {
		roles = append(roles, "unknown")
	}
	if g.P(10) && len(roles) > 0 {
		roles = append(roles, roles[0])
	}
	if g.P(5) {
		roles = append(roles, "")
	}
	roles = Shuffle(g, roles)
	action = Pick(g, []string{"read", "write", "READ", "rexd", "delete", "list"})
	resource = Pick(g, []string{"obj", "obj1", "OBJ", "object", "a:b", "path/x", "path/y/z", "oxj", "zzz", "obj*"})
	return
}

// a verifier which is real, over the keys of the world
func (w *World) provider() pubkey.Provider {
	vers := map[pubkey.AthenzEnv]map[string]zmssvctoken.Verifier{pubkey.EnvZTS: {}, pubkey.EnvZMS: {}}
	for id, k := range w.ZTSKeys {
		vers[pubkey.EnvZTS][id] = must(zmssvctoken.NewVerifier(k.PubPEM))
	}
	for id, k := range w.ZMSKeys {
		vers[pubkey.EnvZMS][id] = must(zmssvctoken.NewVerifier(k.PubPEM))
	}
	return func(e pubkey.AthenzEnv, id string) zmssvctoken.Verifier {
		v, ok := vers[e][id]
		if !ok {
			return nil
		}
		return v
	}
}

func (w *World) Policyd(domains []string, opts ...policy.Option) policy.Daemon {
	return must(policy.New(append([]policy.Option{
		policy.WithAthenzURL("https://" + w.Base), policy.WithAthenzDomains(domains...), policy.WithHTTPClient(w.Client(0)),
		policy.WithPubKeyProvider(w.provider()), policy.WithRetryAttempts(1), policy.WithRetryDelay("1s"),
	}, opts...)...))
}

func checkC01(r *Run) {
	pools()
	judge := func(i int, what string, asss []Ass, dom string, roles []string, act, res string, err error, got []string, hasRoles bool) {
		want, wantRoles := decide(asss, dom, roles, act, res)
		d, known := decisionOf(err)
		r.Count("decisions "+want.String(), 1)
		if !known {
			r.Violate(i, "error", "%s: request %s %v %s %s: unexpected error %v, expected %v", what, dom, roles, act, res, err, want)
			return
		}
		if d != want {
			r.Violate(i, "decision", "%s: request domain %s roles %v action %q resource %q: got %v (%v), expected %v\nassertions %v", what, dom, roles, act, res, d, err, want, asss)
			return
		}
		if hasRoles && want == Allow && !eqStrings(sortedSet(got), wantRoles) {
			r.Violate(i, "authorized roles", "%s: request domain %s roles %v action %q resource %q: authorized roles %v, expected %v\nassertions %v", what, dom, roles, act, res, got, wantRoles, asss)
		}
		if err != nil && len(got) != 0 {
			r.Violate(i, "authorized roles", "%s: rejected request reports roles %v", what, got)
		}
	}

	perturbYield(r)
	// in virtual time: the policy daemon and the whole authorizer against the model
	r.Bubbles("model", r.Tier(700, 6000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		c := newC01Gen(g)
		c2 := newC01Gen(g)
		c2.domain = "second." + c.domain
		doc := w.Doc(c.domain, time.Now().Add(240*time.Hour), c.policies()...)
		doc2 := w.Doc(c2.domain, time.Now().Add(240*time.Hour), c2.policies()...)
		doc.Names, doc2.Names = g.N(3), g.N(3)
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		pd := w.Policyd([]string{c.domain, c2.domain})
		az := w.Authz([]string{c.domain, c2.domain}, authorizerd.WithCacheExp(time.Second), authorizerd.WithDisableJwkd())
		for round := 0; round < 3; round++ {
			if round > 0 {
				// the same assertions split and ordered in another way, a fresh set once in a while
				if g.P(50) {
					all := Shuffle(g, doc.All())
					pols := make([][]Ass, g.Range(1, 8))
					for _, a := range all {
						k := g.N(len(pols))
						pols[k] = append(pols[k], a)
					}
					doc.Policies = pols
				} else {
					doc.Policies = c.policies()
				}
			}
			w.ServePolicy(doc)
			w.ServePolicy(doc2)
			if err := pd.Update(ctx); err != nil {
				r.Violate(i, "update", "update of authentic policies failed: %v", err)
				return
			}
			if round == 0 {
				if err := az.Init(ctx); err != nil {
					r.Violate(i, "update", "initialization with authentic policies failed: %v", err)
					return
				}
			}
			for k := 0; k < 12; k++ {
				cc, dd := c, doc
				if g.P(25) {
					cc, dd = c2, doc2
				}
				roles, act, res := cc.request()
				if all := dd.All(); g.P(40) && len(all) > 0 {
					a := Pick(g, all)
					act, res = a.Action, a.Resource[strings.Index(a.Resource, ":")+1:]
					if name := a.Role[len(cc.domain)+len(":role."):]; !strings.ContainsAny(name, ", ") && g.P(60) {
						roles = append(roles, name)
					}
				}
				dom := cc.domain
				if g.P(3) {
					dom = "unknown.domain"
				}
				got, err := pd.CheckPolicyRoles(ctx, dom, roles, act, res)
				judge(i, "policy daemon", dd.All(), dom, roles, act, res, err, got, true)
				r.Eval(len(dd.All()) > 0 && len(roles) > 0, dd.All(), "|", roles, act, res)
				if g.P(30) {
					judge(i, "CheckPolicy", dd.All(), dom, roles, act, res, pd.CheckPolicy(ctx, dom, roles, act, res), nil, false)
				}
				if g.P(10) {
					cctx, cc2 := context.WithCancel(ctx)
					cc2()
					if _, err := pd.CheckPolicyRoles(cctx, dom, roles, act, res); err == nil {
						if d, _ := decide(dd.All(), dom, roles, act, res); d != Allow {
							r.Violate(i, "cancelled", "request with a cancelled context allowed, expected %v", d)
						}
					}
				}
				if round == 0 && len(roles) > 0 {
					tok := w.RoleToken(dom, roles, "user.a")
					p, err := az.AuthorizeRoleToken(ctx, tok, act, res)
					var ar []string
					if p != nil {
						ar = p.AuthorizedRoles()
					}
					judge(i, "authorizer", dd.All(), dom, roles, act, res, err, ar, true)
				}
			}
		}
	})

	pt.Disable()
	// real scheduling: the same policies built and checked again and again
	r.casesOn("schedules", r.Tier(60, 600), 2, func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		c := newC01Gen(g)
		perturbOn(g)
		var all []Ass
		// pairs of allow and deny spread over policies, which are built concurrently
		for k := 0; k < g.Range(2, 12); k++ {
			a := c.ass()
			a.Effect = "allow"
			b := a
			b.Effect = "deny"
			all = append(all, a, b, a)
		}
		for k := 0; k < 4; k++ {
			all = append(all, c.ass())
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		pd := w.Policyd([]string{c.domain})
		for round := 0; round < 6; round++ {
			pols := make([][]Ass, g.Range(2, 10))
			for _, a := range Shuffle(g, all) {
				k := g.N(len(pols))
				pols[k] = append(pols[k], a)
			}
			doc := w.Doc(c.domain, time.Now().Add(240*time.Hour), pols...)
			doc.Names = round % 3
			w.ServePolicy(doc)
			if err := pd.Update(ctx); err != nil {
				r.Violate(i, "update", "update of authentic policies failed: %v", err)
				return
			}
			for k := 0; k < 12; k++ {
				roles, act, res := c.request()
				if g.P(50) {
					a := Pick(g, all)
					act, res = a.Action, a.Resource[strings.Index(a.Resource, ":")+1:]
				}
				got, err := pd.CheckPolicyRoles(ctx, c.domain, roles, act, res)
				judge(i, "schedule", doc.All(), c.domain, roles, act, res, err, got, true)
				r.Eval(true, "s", doc.All(), "|", roles, act, res)
				r.Count("scheduled decisions", 1)
			}
		}
	})
	ptReport(r)
	r.Need("decisions deny", 500)
	r.Need("decisions allow", 500)
	r.Need("decisions no match", 500)
}
