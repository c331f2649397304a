package vh

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C10"] = checkC10 }

// drain reads the error channel, as a user has to.
func drain(ech <-chan error) {
	go func() {
		for range ech {
		}
	}()
}

// effective returns the last version of a page delivered until t, and whether one was delivered close to t.
func effective(reqs []Req, path string, t time.Time, eps time.Duration) (ver string, unsure bool) {
	for _, q := range reqs {
		if !strings.HasSuffix(q.URL, path) || q.Status != 200 || q.Err != nil || q.Done.IsZero() {
			continue
		}
		if d := t.Sub(q.Done); d < eps && d > -eps {
			unsure = true
		}
		if !q.Done.After(t) {
			ver = q.Tag
		}
	}
	return
}

type c10Tok struct {
	role, id string
	access   bool
	exp      int64
	s        string
	cert     *x509.Certificate // asked with, in requests if set
	more     []string          // roles without policies
	key      *Key
}

func (t c10Tok) String() string {
	return fmt.Sprintf("role %s, key %s %s, access token %v, expiry %d, in a request %v, %d more roles: %s", t.role, t.id, t.key.name(), t.access, t.exp, t.cert != nil, len(t.more), t.s)
}

func checkC10(r *Run) {
	pools()
	r.Bubbles("timelines", r.Tier(300, 4000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		T := Pick(g, []time.Duration{4 * time.Second, 10 * time.Second, time.Minute, 5 * time.Minute})
		per := func() string {
			return Pick(g, []time.Duration{T / 3, T / 2, T - time.Second, 3*T + time.Second, 11 * time.Minute}).String()
		}
		const dom = "dom"
		pols := map[string][]Ass{}
		zts := map[string]map[string]*Key{}
		jwks := map[string]map[string]*Key{}
		end := time.Now().Add(time.Hour)
		setPolicy := func() {
			var asss []Ass
			for _, role := range []string{"r1", "r2"} {
				switch g.N(5) {
				case 0, 1, 2:
					asss = append(asss, Ass{"dom:role." + role, "read", "dom:a", "allow"})
				case 3:
					asss = append(asss, Ass{"dom:role." + role, "read", "dom:a", "allow"}, Ass{"dom:role." + role, "re*", "dom:?", "deny"})
				}
			}
			asss = append(asss, Ass{"dom:role.other", "x", "dom:x", "allow"})
			w.ServePolicy(w.Doc(dom, time.Now().Add(4000*time.Hour), asss))
			pols[fmt.Sprint(w.Ver)] = asss
		}
		changeKeys := func() {
			for _, k := range []struct {
				m   map[string]*Key
				id  string
				key *Key
			}{{w.ZTSKeys, "0", EC(1)}, {w.ZTSKeys, "extra", EC(7)}, {w.JWKeys, "0", EC(5)}, {w.JWKeys, "at1", EC(6)}} {
				if g.P(85) {
					k.m[k.id] = k.key
				} else {
					delete(k.m, k.id)
				}
			}
		}
		setKeys := func() {
			w.ServeKeys()
			z, j := map[string]*Key{}, map[string]*Key{}
			for k, v := range w.ZTSKeys {
				z[k] = v
			}
			for k, v := range w.JWKeys {
				j[k] = v
			}
			zts[fmt.Sprint(w.Ver)], jwks[fmt.Sprint(w.Ver)] = z, j
		}
		setPolicy()
		setKeys()
		pp, kp, jp := per(), per(), per()
		az := w.Authz([]string{dom}, authorizerd.WithCacheExp(T), authorizerd.WithPolicyRefreshPeriod(pp), authorizerd.WithPubkeyRefreshPeriod(kp), authorizerd.WithJwkRefreshPeriod(jp))
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		drain(az.Start(ctx))
		cfg := fmt.Sprintf("cache time %v, refresh of policies %s keys %s key sets %s", T, pp, kp, jp)

		type tok = c10Tok
		var toks []tok
		mkTok := func() tok {
			tk := tok{role: Pick(g, []string{"r1", "r2"}), access: g.P(50)}
			for n := Pick(g, []int{0, 0, 1, 3, 6, 20}); n > 0; n-- {
				tk.more = append(tk.more, fmt.Sprint("more", n))
			}
			if g.P(30) {
				tk.cert = CertSpec{CN: "client", Issuer: "ca", NotBefore: time.Now()}.Make()
			}
			roles := Shuffle(g, append([]string{tk.role}, tk.more...))
			now := time.Now().Unix()
			tk.exp = now + Pick(g, []int64{20, 300, 1200, 864000, 864000, 864000, 864000, 864000})
			if tk.access {
				tk.id = Pick(g, []string{"0", "at1"})
				tk.key = EC(map[string]int{"0": 5, "at1": 6}[tk.id])
				tk.s = AT(tk.key, map[string]any{"kid": tk.id}, ATClaims(dom, roles, "user", fmt.Sprint(g.U64()), now-10, tk.exp))
			} else {
				tk.id = Pick(g, []string{"0", "extra"})
				tk.key = EC(map[string]int{"0": 1, "extra": 7}[tk.id])
				tk.s = RT{Domain: dom, Roles: roles, Principal: fmt.Sprint("p", g.U64()), T: now - 10, E: tk.exp, KeyID: tk.id}.Sign(tk.key)
			}
			return tk
		}
		for k := 0; k < 4; k++ {
			toks = append(toks, mkTok())
		}
		recent := func() int { return len(toks) - 1 - g.N(4) }
		type event struct {
			at  time.Time
			tok int
			ok  bool
		}
		var events []event
		askTok := func(n int) {
			var err error
			if cert := toks[n].cert; cert != nil {
				q := httptest.NewRequest("GET", "https://server.test/?x=y", nil).WithContext(ctx)
				q.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}}
				q.Header.Set("Athenz-Role-Auth", toks[n].s)
				if toks[n].access {
					q.Header.Set("Athenz-Role-Auth", "")
					q.Header.Set("Authorization", "Bearer "+toks[n].s)
				}
				_, err = az.Authorize(q, "read", "a")
			} else if toks[n].access {
				_, err = az.AuthorizeAccessToken(ctx, toks[n].s, "read", "a", nil)
			} else {
				_, err = az.AuthorizeRoleToken(ctx, toks[n].s, "read", "a")
			}
			events = append(events, event{time.Now(), n, err == nil})
		}
		for time.Now().Before(end) && len(events) < 200 {
			switch n := g.N(100); {
			case n < 8:
				setPolicy()
			case n < 12:
				changeKeys()
				setKeys()
			case n < 16:
				toks = append(toks, mkTok())
			case n < 45:
				// again and again within the cache time, which must not prolong
				k, step := recent(), g.Dur(T/5, T*2/3)
				for m := g.Range(3, 8); m > 0; m-- {
					askTok(k)
					switch g.N(8) {
					case 0, 1, 2:
						setPolicy()
					case 3:
						changeKeys()
						setKeys()
					}
					time.Sleep(step)
				}
			default:
				askTok(recent())
			}
			switch g.N(3) {
			case 0:
				time.Sleep(g.Dur(time.Millisecond, T+T/4))
			case 1:
				time.Sleep(g.Dur(time.Millisecond, 30*time.Second))
			}
		}
		reqs := w.Reqs()

		// offline: what each answer may be
		const eps = 2 * time.Millisecond
		state := func(tk tok, at time.Time) (ok, unsure bool) {
			pv, u1 := effective(reqs, policyPath(dom), at, eps)
			var have *Key
			var u2 bool
			if tk.access {
				v, u := effective(reqs, jwksPath, at, eps)
				have, u2 = jwks[v][tk.id], u
			} else {
				v, u := effective(reqs, w.keyPath("zts"), at, eps)
				have, u2 = zts[v][tk.id], u
			}
			left := time.Unix(tk.exp, 0).Sub(at)
			u3 := left < 1500*time.Millisecond && left > -1500*time.Millisecond
			d, _ := decide(pols[pv], dom, []string{tk.role}, "read", "a")
			return d == Allow && have == tk.key && left > 0, u1 || u2 || u3
		}
		// an answer may be reused from a request which passed at that time
		for n, e := range events {
			tk := toks[e.tok]
			ok, unsure := state(tk, e.at)
			r.Eval(true, cfg, tk.role, tk.access, ok, e.ok, n, e.at.Sub(events[0].at))
			if unsure {
				continue
			}
			if !e.ok {
				r.Count("rejected", 1)
				if ok {
					r.Violate(i, "rejected", "(%s) request %d at %v by token %s: rejected, although it is valid and allowed", cfg, n, e.at, tk.String())
					return
				}
				continue
			}
			if ok {
				r.Count("granted in state", 1)
				continue
			}
			from := e.at.Add(-T - 100*time.Millisecond)
			just := false
			for m := n - 1; m >= 0 && !events[m].at.Before(from); m-- {
				if events[m].tok == e.tok && events[m].ok {
					if was, un := state(toks[e.tok], events[m].at); was || un {
						just = true
						break
					}
				}
			}
			if !just {
				r.Violate(i, "stale grant", "(%s) request %d at %v by token %s: granted, although it is not valid or not allowed, and no request of the last %v was", cfg, n, e.at, tk.String(), T)
				return
			}
			r.Count("granted by reuse", 1)
		}
	})
	r.Need("rejected", 2000)
	r.Need("granted in state", 2000)
	r.Need("granted by reuse", 100)
}
