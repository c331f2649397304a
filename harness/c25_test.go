package vh

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C25"] = checkC25 }

// hostMux takes the place of the default transport, for the clients which have no other.
type hostMux struct{ m sync.Map }

func (h *hostMux) RoundTrip(r *http.Request) (*http.Response, error) {
	rt, ok := h.m.Load(r.URL.Host)
	if !ok {
		return nil, fmt.Errorf("verif: no host %s", r.URL.Host)
	}
	return rt.(http.RoundTripper).RoundTrip(r)
}

var mux25 = &hostMux{}
var hosts25 atomic.Int64

// conf25 makes a configuration: what is given, in any order and after values which are overridden, and what has to hold.
type conf25 struct {
	g    *Rng
	opts [][]authorizerd.Option // those of one kind in order
	desc []string
}

func (c *conf25) add(desc string, opts ...authorizerd.Option) {
	c.opts = append(c.opts, opts)
	c.desc = append(c.desc, desc)
}

func (c *conf25) duration(name string, f func(string) authorizerd.Option, def time.Duration, vals ...time.Duration) time.Duration {
	switch {
	case c.g.P(35):
		return def
	case c.g.P(15):
		c.add(name+"=\"\"", f(""))
		return def
	}
	v := Pick(c.g, vals)
	l := []authorizerd.Option{f(v.String())}
	if c.g.P(25) {
		l = append([]authorizerd.Option{f(Pick(c.g, []time.Duration{v + time.Minute, 77 * time.Minute, v * 2}).String())}, l...)
	}
	c.add(fmt.Sprintf("%s=%v", name, v), l...)
	return v
}

// list interleaves the options, keeping the order of those of one kind.
func (c *conf25) list() (out []authorizerd.Option) {
	left := append([][]authorizerd.Option{}, c.opts...)
	for len(left) > 0 {
		k := c.g.N(len(left))
		out = append(out, left[k][0])
		if left[k] = left[k][1:]; len(left[k]) == 0 {
			left = append(left[:k], left[k+1:]...)
		}
	}
	return
}

func checkC25(r *Run) {
	pools()
	http.DefaultTransport = mux25
	const lat = 10 * time.Millisecond
	near := func(d, want time.Duration) bool { return d >= want && d <= want+10*lat }

	r.Bubbles("periods", r.Tier(160, 3000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		host := fmt.Sprintf("athenz%d.test", hosts25.Add(1))
		w.Base = host + "/zts/v1"
		mux25.m.Store(host, w.Server)
		defer mux25.m.Delete(host)
		w.Latency = func(string) time.Duration { return lat }
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		doms := []string{"dom.a", "dom.b"}[:g.Range(1, 2)]

		c := &conf25{g: g}
		c.add("url", authorizerd.WithAthenzURL(Pick(g, []string{"", "https://", "http://"})+w.Base))
		c.add("domains", authorizerd.WithAthenzDomains(doms...))
		if g.P(50) {
			w.Sys = Pick(g, []string{"sys.auth", "sys.auth2", "my.keys"})
			c.add("system domain "+w.Sys, authorizerd.WithPubkeySysAuthDomain(w.Sys))
		}
		w.ServeKeys()
		timeout := 30 * time.Second
		switch g.N(3) {
		case 0:
		case 1:
			c.add("nil client", authorizerd.WithHTTPClient(nil))
		case 2:
			timeout = Pick(g, []time.Duration{7 * time.Second, 45 * time.Second})
			c.add("client with timeout", authorizerd.WithHTTPClient(nil), authorizerd.WithHTTPClient(w.Client(timeout)))
		}
		h, m := time.Hour, time.Minute
		pkR := c.duration("pubkey refresh", authorizerd.WithPubkeyRefreshPeriod, 24*h, 5*h, 9*h, 31*h)
		pkTTL := c.duration("pubkey ETag expiry", authorizerd.WithPubkeyETagExpiry, 168*h, 7*h, 23*h, 40*h, 100*h)
		c.duration("pubkey ETag purge", authorizerd.WithPubkeyETagPurgePeriod, 84*h, h, 30*h, 200*h)
		pkD := c.duration("pubkey retry delay", authorizerd.WithPubkeyRetryDelay, m, 10*time.Second, 5*m, 17*m)
		polR := c.duration("policy refresh", authorizerd.WithPolicyRefreshPeriod, 30*m, 47*m, 2*h, 11*h, 400*h, 400*h)
		purge := c.duration("policy purge", authorizerd.WithPolicyPurgePeriod, h, 10*m, 31*m, 2*h)
		polM := c.duration("policy expiry margin", authorizerd.WithPolicyExpiryMargin, 3*h, 0, m, 9*h, 50*h)
		polD := c.duration("policy retry delay", authorizerd.WithPolicyRetryDelay, m, 10*time.Second, 3*m)
		jwkR := c.duration("jwk refresh", authorizerd.WithJwkRefreshPeriod, 24*h, 4*h, 10*h, 33*h)
		jwkD := c.duration("jwk retry delay", authorizerd.WithJwkRetryDelay, m, 10*time.Second, 5*m, 17*m)
		att := 2
		if g.P(60) {
			switch att = Pick(g, []int{0, 1, 2, 3, 5, 12}); att {
			case 0:
				c.add("policy retry attempts=0", authorizerd.WithPolicyRetryAttempts(0))
				att = 2 // none given
			default:
				c.add(fmt.Sprint("policy retry attempts=", att), authorizerd.WithPolicyRetryAttempts(4), authorizerd.WithPolicyRetryAttempts(att))
			}
		}
		c.add("cache", authorizerd.WithCacheExp(100*h)) // its purge takes the time of this check
		on := map[string]bool{"keys": true, "policy": true, "jwks": true}
		if g.P(20) {
			on["jwks"] = false
			c.add("no jwkd", authorizerd.WithDisableJwkd())
		} else if g.P(20) {
			c.add("jwkd", authorizerd.WithDisableJwkd(), authorizerd.WithEnableJwkd())
		}
		if g.P(20) {
			on["policy"] = false
			c.add("no policyd", authorizerd.WithEnablePolicyd(), authorizerd.WithDisablePolicyd())
			if g.P(40) {
				on["keys"] = false
				c.add("no pubkeyd", authorizerd.WithDisablePubkeyd())
			}
		} else if g.P(20) {
			c.add("policyd, pubkeyd", authorizerd.WithDisablePolicyd(), authorizerd.WithEnablePolicyd(), authorizerd.WithDisablePubkeyd(), authorizerd.WithEnablePubkeyd())
		}
		var extra []string
		if g.P(30) {
			extra = []string{"https://" + host + "/other/keys"}
			w.SetExtra(extra[0], jwksDoc(map[string]*Key{"x": EC(9)}), 1)
			c.add("jwk URLs", authorizerd.WithJwkURLs(extra))
		}
		say := func() string { return strings.Join(c.desc, ", ") }

		// the documents are renewed in time, or expire once if the refresh period is long
		exp, expOf := map[string]time.Time{}, map[string]time.Time{}
		publish := func(d string, life time.Duration) {
			exp[d] = time.Now().Add(life).Truncate(time.Millisecond)
			w.ServePolicy(w.Doc(d, exp[d], []Ass{{d + ":role.r", "act", d + ":res", "allow"}}))
			expOf[fmt.Sprint(w.Ver)] = exp[d]
		}
		horizon := Pick(g, []time.Duration{60 * h, 100 * h, 250 * h})
		life := g.Dur(4*polR, 12*polR) + g.Dur(0, 2*polM)
		expiring := polR > 100*h
		if expiring {
			life = g.Dur(5*h, 20*h)
		}
		for _, d := range doms {
			publish(d, life)
		}
		az, err := authorizerd.New(c.list()...)
		if err != nil {
			r.Violate(i, "construct", "%s: %v", say(), err)
			return
		}

		// attempts of the first fetch
		failing := g.P(30) && on["policy"]
		if failing {
			w.SetFault(func(path string, _ *http.Request, _ *Req) (Resp, bool) {
				return Resp{Status: 500}, path == policyPath(doms[0])
			})
			err := az.Init(ctx)
			var l []Req
			for _, q := range w.Reqs() {
				if strings.HasSuffix(q.URL, policyPath(doms[0])) {
					l = append(l, q)
				}
			}
			ok := err != nil && len(l) == att+1
			for k := 1; k < len(l); k++ {
				ok = ok && near(l[k].At.Sub(l[k-1].Done), polD)
			}
			if !ok {
				r.Violate(i, "attempts", "%s: the first fetch of a policy fails: error %v after %d requests: %+v; wanted %d every %v", say(), err, len(l), l, att+1, polD)
				return
			}
			r.Count("failed initializations", 1)
			w.SetFault(nil)
		}
		for _, d := range doms {
			publish(d, life)
		}
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "%s: %v", say(), err)
			return
		}
		drain(az.Start(ctx))
		begin := time.Now()
		first := map[string]time.Time{} // the expiry of the documents loaded now
		for _, d := range doms {
			first[policyPath(d)] = exp[d]
		}

		// one failure of each daemon, from just before a tick on
		type window struct {
			from, to time.Time
			hang     bool
		}
		wins := map[string]window{}
		hang := g.P(40)
		dur := func(d time.Duration) time.Duration { // three and a half retries
			if hang {
				return 7*d/2 + 4*timeout
			}
			return 7 * d / 2
		}
		for kind, x := range map[string][2]time.Duration{"keys": {pkR, pkD}, "jwks": {jwkR, jwkD}} {
			if kind == "jwks" && extra != nil {
				continue // whether the others are fetched at a retry is left open
			}
			if dur(x[1]) < x[0]/2 {
				f := begin.Add(x[0] - time.Second)
				wins[kind] = window{f, f.Add(dur(x[1])), hang}
			}
		}
		if one := time.Duration(att+1) * (polD + timeout); one < polR/3 && !expiring {
			f := begin.Add(2*polR - time.Second)
			wins["policy"] = window{f, f.Add(polR / 2), hang}
		}
		w.SetFault(func(path string, _ *http.Request, _ *Req) (Resp, bool) {
			k := pageKind(path)
			if x, ok := wins[k]; ok && on[k] && time.Now().After(x.from) && time.Now().Before(x.to) {
				if k == "policy" && path != policyPath(doms[0]) {
					return Resp{}, false
				}
				return Resp{Status: 500, Hang: x.hang}, true
			}
			return Resp{}, false
		})
		every := max(time.Minute, life/3)
		for time.Now().Before(begin.Add(horizon)) {
			time.Sleep(every)
			for _, d := range doms {
				if !expiring {
					publish(d, life)
				} else if time.Until(exp[d]) < life/2 {
					publish(d, 1000*h) // known at the expiry of the other
				}
			}
		}
		end := time.Now()
		reqs := w.Reqs()
		cancel()

		for kind, x := range map[string]struct {
			period, delay time.Duration
			paths         []string
		}{
			"keys":   {pkR, pkD, []string{w.keyPath("zts"), w.keyPath("zms")}},
			"policy": {polR, polD, nil},
			"jwks":   {jwkR, jwkD, append([]string{jwksPath}, extra...)},
		} {
			if kind == "policy" {
				for _, d := range doms {
					x.paths = append(x.paths, policyPath(d))
				}
			}
			for pi, path := range x.paths {
				var l []Req
				for _, q := range reqs {
					if strings.HasSuffix(q.URL, path) {
						l = append(l, q)
					}
				}
				bad := func(class, f string, a ...any) {
					var s []string
					for k, q := range l {
						if k < 40 {
							s = append(s, fmt.Sprintf("%v-%v %d %q", q.At.Sub(begin), q.Done.Sub(begin), q.Status, q.IfNoneMatch))
						}
					}
					r.Violate(i, class, "%s: %s: %s; fetches %s", say(), path, fmt.Sprintf(f, a...), strings.Join(s, "; "))
				}
				r.Eval(true, say(), path)
				if !on[kind] {
					if len(l) > 0 {
						bad("disabled", "fetched although disabled")
						return
					}
					r.Count("disabled parts", 1)
					continue
				}
				// the document which a conditional request is about
				var cond time.Time // until when
				_, faulty := wins[kind]
				if kind == "policy" && pi > 0 {
					faulty = false
				}
				next := begin.Add(x.period)
				var last *Req
				fails := 0
				for k := range l {
					q := &l[k]
					if q.Done.IsZero() {
						break // under way at the end
					}
					has := q.IfNoneMatch != ""
					if kind != "jwks" {
						if d := cond.Sub(q.At); d > time.Second && !has {
							bad("unconditional", "fetch at %v without a condition, the document is to be kept until %v", q.At.Sub(begin), cond.Sub(begin))
							return
						} else if d < -time.Second && has {
							bad("conditional", "fetch at %v with a condition, the document was to be kept until %v", q.At.Sub(begin), cond.Sub(begin))
							return
						}
						if has {
							r.Count("conditional fetches of "+kind, 1)
						} else {
							r.Count("unconditional fetches of "+kind, 1)
						}
					}
					if q.Status == 200 {
						switch kind {
						case "keys":
							cond = q.Done.Add(pkTTL)
						case "policy":
							cond = expOf[q.Tag].Add(-polM)
						}
					}
					if q.At.Before(begin) {
						continue
					}
					if q.Status == 0 && !near(q.Done.Sub(q.At), timeout) {
						bad("timeout", "a request hanging was given up after %v, not %v", q.Done.Sub(q.At), timeout)
						return
					}
					failed := q.Status != 200 && q.Status != 304
					onTime := near(q.At.Sub(next), 0)
					switch {
					case last != nil && fails > 0 && faulty && kind != "policy":
						// the first retry may be at once
						if d := q.At.Sub(last.Done); !near(d, x.delay) && !(fails == 1 && near(d, 0)) {
							bad("delay", "retry at %v, %v after the failure before", q.At.Sub(begin), d)
							return
						}
						r.Count("retries", 1)
						for !next.After(q.At) {
							next = next.Add(x.period)
						}
					case last != nil && fails > 0 && kind == "policy" && !onTime:
						if d := q.At.Sub(last.Done); !near(d, x.delay) || fails > att {
							bad("delay", "retry %d at %v, %v after the failure before", fails, q.At.Sub(begin), d)
							return
						}
						r.Count("retries", 1)
					case onTime:
						if kind == "policy" && fails > 0 && fails != att+1 {
							bad("attempts", "%d attempts before %v, wanted %d", fails, q.At.Sub(begin), att+1)
							return
						}
						fails = 0
						next = next.Add(x.period)
						r.Count("periodic fetches of "+kind, 1)
					case kind == "policy" && expiring && fails == 0 && q.At.After(first[path].Add(-time.Second)) && q.At.Before(first[path].Add(purge+time.Second)):
						r.Count("fetches on expiry", 1)
					default:
						bad("period", "fetch at %v, expected the next at %v", q.At.Sub(begin), next.Sub(begin))
						return
					}
					if failed {
						fails++
					} else {
						fails = 0
					}
					last = q
				}
				if next.Before(end.Add(-time.Minute)) {
					bad("period", "no fetch at %v", next.Sub(begin))
					return
				}
				if e := first[path]; kind == "policy" && expiring && end.After(e.Add(purge+time.Minute)) {
					fetched := false
					for _, q := range l {
						fetched = fetched || q.At.After(e.Add(-time.Second)) && q.At.Before(e.Add(purge+time.Second))
					}
					if !fetched {
						bad("purge", "not fetched within the purge period of the expiry at %v", e.Sub(begin))
						return
					}
				}
			}
		}
	})

	// an answer is reused for the time of the cache at most
	r.Bubbles("cache time", r.Tier(60, 800), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		c := &conf25{g: g}
		c.add("url", authorizerd.WithAthenzURL(w.Base))
		c.add("domains", authorizerd.WithAthenzDomains("dom"))
		c.add("client", authorizerd.WithHTTPClient(w.Client(0)))
		T := time.Minute
		if g.P(60) {
			T = Pick(g, []time.Duration{2 * time.Second, 20 * time.Second, 3 * time.Minute, 15 * time.Minute})
			c.add(fmt.Sprint("cache ", T), authorizerd.WithCacheExp(time.Hour), authorizerd.WithCacheExp(T))
		}
		life := 4000 * time.Hour
		w.ServePolicy(w.Doc("dom", time.Now().Add(life), []Ass{{"dom:role.r", "act", "dom:res", "allow"}}))
		az := must(authorizerd.New(c.list()...))
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "%v: %v", c.desc, err)
			return
		}
		drain(az.Start(ctx))
		before := g.Dur(time.Millisecond, T)
		time.Sleep(30*time.Minute - before)
		tok := w.RoleToken("dom", []string{"r"}, "p")
		ask := func() bool { _, err := az.AuthorizeRoleToken(ctx, tok, "act", "res"); return err == nil }
		if !ask() {
			r.Violate(i, "granted", "%v: a valid request is rejected", c.desc)
			return
		}
		w.ServePolicy(w.Doc("dom", time.Now().Add(life), []Ass{{"dom:role.r", "act", "dom:res", "deny"}}))
		asked := time.Now()
		time.Sleep(before + time.Millisecond) // the refresh, after the default period
		if time.Until(asked.Add(T)) > 100*time.Millisecond {
			time.Sleep(g.Dur(0, time.Until(asked.Add(T))))
			r.Count(map[bool]string{true: "reused answers", false: "answers not reused"}[ask()], 1)
		}
		time.Sleep(time.Until(asked.Add(T + 100*time.Millisecond)))
		if ask() {
			r.Violate(i, "cache time", "%v: an answer is reused %v after it was given", c.desc, time.Since(asked))
			return
		}
		r.Eval(true, c.desc, before)
		r.Count("answers given up", 1)
	})

	// the credentials which are accepted by default, and how
	r.Bubbles("credentials", r.Tier(60, 800), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		c := &conf25{g: g}
		c.add("url", authorizerd.WithAthenzURL(w.Base))
		c.add("domains", authorizerd.WithAthenzDomains("dom"))
		c.add("client", authorizerd.WithHTTPClient(w.Client(0)))
		w.ServePolicy(w.Doc("dom", time.Now().Add(4000*time.Hour), []Ass{{"dom:role.r", "act", "dom:res", "allow"}}))
		header, prefix := "Athenz-Role-Auth", "athenz://role/"
		if g.P(30) {
			header = "X-Role"
			c.add("header", authorizerd.WithRoleAuthHeader("Y-Role"), authorizerd.WithRoleAuthHeader(header))
		}
		if g.P(30) {
			prefix = "x://y/"
			c.add("prefix", authorizerd.WithRoleCertURIPrefix("y://x/"), authorizerd.WithRoleCertURIPrefix(prefix))
		}
		b := &binding{thumb: true, backdate: time.Hour, offset: time.Hour}
		at := true
		switch g.N(5) {
		case 0:
			b = &binding{}
			c.add("unbound", authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "1h", "1h", false, nil)))
		case 1:
			b.backdate, b.offset = 10*time.Minute, 3*time.Hour
			c.add("binding times", authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, false, "", "", true, nil)), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, true, "10m", "3h", false, nil)))
		case 2:
			at = false
			c.add("no access token", authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, true, "1h", "1h", false, nil)))
		}
		rt := true
		if g.P(25) {
			rt = false
			c.add("no role token", authorizerd.WithEnableRoleToken(), authorizerd.WithDisableRoleToken())
		}
		if g.P(25) && (rt || at) {
			c.add("no role certificate", authorizerd.WithEnableRoleCert(), authorizerd.WithDisableRoleCert())
		}
		az, err := authorizerd.New(c.list()...)
		if err != nil {
			r.Violate(i, "construct", "%v: %v", c.desc, err)
			return
		}
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "%v: %v", c.desc, err)
			return
		}
		for k := 0; k < 30; k++ {
			req := httptest.NewRequest("GET", "https://server.test/x", nil)
			want, what := false, ""
			now := time.Now().Unix()
			switch g.N(3) {
			case 0:
				hd := Pick(g, []string{header, header, "Athenz-Role-Auth", "Y-Role", "X-Role"})
				req.Header.Set(hd, w.RoleToken("dom", []string{"r"}, fmt.Sprint("p", k)))
				want, what = rt && hd == header, "role token in "+hd
			case 1:
				p := Pick(g, []string{prefix, prefix, "athenz://role/", "y://x/", "x://y/"})
				cert := CertSpec{CN: "someone", NotBefore: time.Now().Add(-time.Hour), URIs: []string{p + "dom/r"}}.Make()
				err := az.VerifyRoleCert(ctx, []*x509.Certificate{cert}, "act", "res")
				if (err == nil) != (p == prefix) {
					r.Violate(i, "credentials", "%v: certificate with %s: answered %v", c.desc, p, err)
					return
				}
				r.Count("certificates", 1)
				continue
			case 2:
				iat := now - 10*3600
				delta := Pick(g, []time.Duration{0, 10 * time.Minute, time.Hour, 2 * time.Hour, 3 * time.Hour, 4 * time.Hour}) + Pick(g, []time.Duration{-time.Second, 0, time.Second})
				nb := time.Unix(iat, 0).Add(-b.backdate + delta)
				cn := Pick(g, []string{"client", "client", "else"})
				cert := CertSpec{CN: cn, NotBefore: nb}.Make()
				claims := ATClaims("dom", []string{"r"}, fmt.Sprint("s", k), "client", iat, now+100000)
				x := thumb(cert)
				if g.P(60) {
					x = thumb(CertSpec{CN: cn, NotBefore: nb}.Make())
				}
				claims["cnf"] = map[string]any{"x5t#S256": x}
				tok := AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, claims)
				req.Header.Set("Authorization", "Bearer "+tok)
				var peer *x509.Certificate
				if g.P(80) {
					peer = cert
					req.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}}
				}
				ok, how := b.accepts(claims, peer)
				want, what = at && ok, "access token: "+how+fmt.Sprint(", certificate ", nb.Sub(time.Unix(iat, 0)), " from its issue")
			}
			_, err := az.Authorize(req, "act", "res")
			if (err == nil) != want {
				r.Violate(i, "credentials", "%v: %s: answered %v, wanted granted %v", c.desc, what, err, want)
				return
			}
			r.Eval(true, c.desc, what)
			r.Count(map[bool]string{true: "granted", false: "rejected"}[want], 1)
		}
	})
	r.Need("periodic fetches of keys", 300)
	r.Need("periodic fetches of policy", 1000)
	r.Need("periodic fetches of jwks", 300)
	r.Need("conditional fetches of keys", 100)
	r.Need("unconditional fetches of keys", 100)
	r.Need("conditional fetches of policy", 100)
	r.Need("unconditional fetches of policy", 100)
	r.Need("retries", 200)
	r.Need("fetches on expiry", 10)
	r.Need("disabled parts", 20)
	r.Need("failed initializations", 10)
	r.Need("answers given up", 40)
	r.Need("certificates", 200)
	r.Need("granted", 200)
	r.Need("rejected", 200)
}
