package vh

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C11"] = checkC11 }

// cred is a credential with what it is worth.
type cred struct {
	tok   string
	valid bool // authentic and in time
	bound bool // needs the certificate
	ans   Ans  // with a valid one, without the authorized roles
	what  string
}

func checkC11(r *Run) {
	pools()
	r.Bubbles("requests", r.Tier(500, 6000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		enAT, enRT, enRC, policies := g.P(75), g.P(75), g.P(50), g.P(75)
		bind := g.P(50)
		header := Pick(g, []string{"Athenz-Role-Auth", "Yahoo-Role-Auth", "X-Role"})
		prefix := Pick(g, []string{"", "", "/pre"})
		const dom = "dom"
		asss := []Ass{{"dom:role.allowed", "read", "dom:" + prefix + "/a", "allow"}, {"dom:role.denied", "read", "dom:" + prefix + "/a", "deny"},
			{"dom:role.writer", "write", "dom:" + prefix + "/*", "allow"}, {"dom:role.denied", "read", "dom:" + prefix + "/b", "allow"}}
		w.ServePolicy(w.Doc(dom, time.Now().Add(4000*time.Hour), asss))
		opts := []authorizerd.Option{
			authorizerd.WithRoleAuthHeader(header),
			authorizerd.WithResourcePrefix(prefix),
			authorizerd.WithCacheExp(Pick(g, []time.Duration{time.Second, time.Hour})),
			authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(enAT, bind, "1h", "0s", false, nil)),
		}
		on := func(b bool, yes, no authorizerd.Option) {
			if b {
				opts = append(opts, yes)
			} else {
				opts = append(opts, no)
			}
		}
		on(enRT, authorizerd.WithEnableRoleToken(), authorizerd.WithDisableRoleToken())
		on(enRC, authorizerd.WithEnableRoleCert(), authorizerd.WithDisableRoleCert())
		on(policies, authorizerd.WithEnablePolicyd(), authorizerd.WithDisablePolicyd())
		opts = w.Options([]string{dom}, opts...)
		cfg := fmt.Sprint("access ", enAT, " bound ", bind, " role ", enRT, " cert ", enRC, " policies ", policies, " header ", header, " prefix ", prefix)
		az, err := authorizerd.New(opts...)
		if !enAT && !enRT && !enRC {
			r.Count("nothing enabled", 1)
			r.Eval(true, cfg)
			if err == nil {
				r.Violate(i, "nothing enabled", "an authorizer with nothing enabled was constructed")
			}
			return
		}
		if err != nil {
			r.Violate(i, "construction", "construction failed: %v (%s)", err, cfg)
			return
		}
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		now := time.Now().Unix()
		leaf := CertSpec{CN: "leaf", Issuer: "ca", NotBefore: time.Now().Add(-time.Hour)}.Make()
		other := CertSpec{CN: "leaf", Issuer: "ca", NotBefore: time.Now().Add(-2 * time.Hour)}.Make()
		rc := CertSpec{CN: "dom:role.allowed", Issuer: "ca", NotBefore: time.Now().Add(-time.Hour), URIs: []string{"athenz://role/dom/allowed"}}.Make()
		roleSets := [][]string{{"allowed"}, {"denied"}, {"writer"}, {"allowed", "denied"}, {"allowed", "writer"}, {"unknown"}}
		var ats, rts []cred
		for n := 0; n < 5; n++ {
			roles := Pick(g, roleSets)
			c := cred{valid: true, what: "valid"}
			iat, exp := now-100, now+30*86400
			claims := ATClaims(dom, roles, "at."+Pick(g, []string{"a", "b"}), "client", iat, exp)
			if bind && g.P(85) {
				claims["cnf"] = map[string]any{"x5t#S256": thumb(leaf)}
				c.bound = true
			} else if bind {
				c.valid, c.what = false, "not bound"
			}
			key := w.JWKeys["at1"]
			if g.P(12) {
				claims["exp"] = now - 10
				c.valid, c.what = false, "expired"
			} else if g.P(12) {
				key = EC(20)
				c.valid, c.what = false, "forged"
			}
			c.tok = AT(key, map[string]any{"kid": "at1"}, claims)
			c.ans = Ans{OK: true, OAuth: true, Name: claims["sub"].(string), Domain: dom, Client: "client", Roles: roles, Issue: iat, Expiry: exp}
			ats = append(ats, c)

			c = cred{valid: true, what: "valid"}
			roles = Pick(g, roleSets)
			key = w.ZTSKeys["zts1"]
			rt := RT{Domain: dom, Roles: roles, Principal: "rt." + Pick(g, []string{"a", "b"}), T: now - 50, E: now + 20*86400, KeyID: "zts1"}
			if g.P(12) {
				rt.E = now - 10
				c.valid, c.what = false, "expired"
			} else if g.P(12) {
				key = EC(20)
				c.valid, c.what = false, "forged"
			}
			c.tok = rt.Sign(key)
			c.ans = Ans{OK: true, Name: rt.Principal, Domain: dom, Roles: roles, Issue: rt.T, Expiry: rt.E}
			rts = append(rts, c)
		}
		for k := 0; k < 30; k++ {
			act, res := Pick(g, []string{"read", "read", "write", "Read"}), Pick(g, []string{"/a", "/a", "/b", "/c"})
			if g.P(8) {
				act = ""
			}
			if g.P(8) {
				res = ""
			}
			q := httptest.NewRequest(Pick(g, []string{"GET", "POST"}), "https://server.test/any/path", nil).WithContext(ctx)
			var at, rt *cred
			desc := ""
			switch n := g.N(20); {
			case n < 13:
				c := Pick(g, ats)
				at = &c
				q.Header.Set("Authorization", Pick(g, []string{"Bearer ", "Bearer ", "bearer ", "BEARER "})+c.tok)
				desc += "access token " + c.what + " " + strings.Join(c.ans.Roles, ",")
			case n == 13:
				q.Header.Set("Authorization", "Bearer "+Pick(g, rts).tok)
				desc += "role token as access token"
			case n == 14:
				q.Header.Set("Authorization", Pick(g, []string{"", "Bearer", "Bearer ", "Basic dXNlcjpwYXNz", "Bearer x.y.z", "Bearer null"}))
				desc += "odd authorization"
			case n == 15:
				q.URL.RawQuery = url.Values{"access_token": {Pick(g, ats).tok}}.Encode()
				desc += "access token in the query"
			case n == 16:
				q.Header.Set("X-Authorization", "Bearer "+Pick(g, ats).tok)
				q.Header.Set("Proxy-Authorization", "Bearer "+Pick(g, ats).tok)
				desc += "access token in another header"
			}
			switch n := g.N(20); {
			case n < 12:
				c := Pick(g, rts)
				rt = &c
				h := header
				if g.P(30) {
					h = strings.ToUpper(h)
				}
				q.Header.Set(h, c.tok)
				if g.P(10) { // the first one counts
					q.Header.Add(h, Pick(g, []string{"", "v=Z1", c.tok}))
				}
				desc += ", role token " + c.what + " " + strings.Join(c.ans.Roles, ",")
			case n == 12:
				q.Header.Set(header, Pick(g, ats).tok)
				desc += ", access token as role token"
			case n == 13:
				q.Header.Set(header, Pick(g, []string{"", "v=Z1", ";s=", "Bearer " + Pick(g, rts).tok}))
				desc += ", odd role header"
			case n == 14:
				for _, h := range []string{"Role-Auth", "Athenz-Role-Auth", "Yahoo-Role-Auth", "Athenz-Principal-Auth", "X-Athenz-Role-Auth"} {
					if h != header && g.P(60) {
						q.Header.Set(h, Pick(g, rts).tok)
					}
				}
				desc += ", role token in another header"
			}
			var cert *x509.Certificate
			switch n := g.N(8); {
			case n < 4:
				cert = leaf
			case n == 4:
				cert = other
			case n == 5:
				cert = rc
			}
			switch {
			case cert != nil:
				q.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}}
				for g.P(30) {
					q.TLS.PeerCertificates = append(q.TLS.PeerCertificates, Pick(g, []*x509.Certificate{leaf, other, rc}))
				}
				desc += ", certificate " + cert.Subject.CommonName
			case g.P(50):
				q.TLS = &tls.ConnectionState{}
			default:
				q.TLS = nil
			}
			grants := func(c *cred, enabled bool) (Ans, bool) {
				if c == nil || !enabled || !c.valid || (c.bound && cert != leaf) {
					return Ans{}, false
				}
				a := c.ans
				a.AuthRoles = []string{}
				if policies {
					if act == "" || res == "" {
						return Ans{}, false
					}
					d, ar := decide(asss, dom, c.ans.Roles, act, prefix+res)
					if d != Allow {
						return Ans{}, false
					}
					a.AuthRoles = ar
				}
				return a, true
			}
			want, ok := grants(at, enAT)
			kind := "access token"
			if !ok {
				want, ok = grants(rt, enRT)
				kind = "role token"
			}
			if !ok {
				kind = "nothing"
			}
			r.Count("granted by "+kind, 1)
			r.Eval(at != nil || rt != nil, cfg, desc, act, res)
			p, err := az.Authorize(q, act, res)
			got := ansOf(p, err)
			if !got.Eq(want) {
				r.Violate(i, "request", "(%s) request %q %q with %s: got %v (%v), expected %v", cfg, act, res, desc, got, err, want)
				return
			}
			if err != nil && !errors.Is(err, authorizerd.ErrInvalidCredentials) {
				r.Violate(i, "error", "(%s) request %q %q with %s: error %v, expected the invalid credentials error", cfg, act, res, desc, err)
			}
			verr := az.Verify(q, act, res)
			if (verr == nil) != ok || (verr != nil && !errors.Is(verr, authorizerd.ErrInvalidCredentials)) {
				r.Violate(i, "verify", "(%s) verification of %q %q with %s: %v, expected granted: %v", cfg, act, res, desc, verr, ok)
			}
			// the methods for one kind of credential
			if at != nil {
				want, ok := grants(at, enAT)
				p, err := az.AuthorizeAccessToken(ctx, at.tok, act, res, cert)
				verr := az.VerifyAccessToken(ctx, at.tok, act, res, cert)
				if got := ansOf(p, err); !got.Eq(want) || (verr == nil) != ok {
					r.Violate(i, "access token", "(%s) access token %s for %q %q: got %v (%v, %v), expected %v", cfg, desc, act, res, got, err, verr, want)
				}
				r.Count("single access tokens", 1)
			}
			if rt != nil {
				want, ok := grants(rt, enRT)
				p, err := az.AuthorizeRoleToken(ctx, rt.tok, act, res)
				verr := az.VerifyRoleToken(ctx, rt.tok, act, res)
				if got := ansOf(p, err); !got.Eq(want) || (verr == nil) != ok {
					r.Violate(i, "role token", "(%s) role token %s for %q %q: got %v (%v, %v), expected %v", cfg, desc, act, res, got, err, verr, want)
				}
				r.Count("single role tokens", 1)
			}
		}
	})
	r.Need("nothing enabled", 5)
	r.Need("granted by access token", 500)
	r.Need("granted by role token", 500)
	r.Need("granted by nothing", 500)
}
