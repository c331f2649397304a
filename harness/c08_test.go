package vh

import (
	"context"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C08"] = checkC08 }

// binding is the model of the certificate checks of access tokens.
type binding struct {
	thumb, client    bool
	backdate, offset time.Duration
	ids              map[string][]string
}

func (b *binding) accepts(claims map[string]any, cert *x509.Certificate) (bool, string) {
	clientID, _ := claims["client_id"].(string)
	iat, _ := claims["iat"].(int64)
	how := "unbound"
	if b.client {
		if cert == nil {
			return false, "no certificate"
		}
		found := false
		for _, id := range b.ids[cert.Subject.CommonName] {
			found = found || id == clientID
		}
		if !found {
			return false, "client ID"
		}
		how = "client ID"
	}
	if !b.thumb {
		return true, how
	}
	if cert == nil {
		return false, "no certificate"
	}
	cnf, _ := claims["cnf"].(map[string]any)
	if tp, ok := cnf["x5t#S256"].(string); ok {
		if tp == thumb(cert) {
			return true, "thumbprint"
		}
		issued := cert.NotBefore.Unix() + int64(b.backdate/time.Second)
		cn := cert.Subject.CommonName
		if b.offset != 0 && cn != "" && cn == clientID && iat <= issued && issued <= iat+int64(b.offset/time.Second) {
			return true, "refreshed certificate"
		}
	}
	if l, ok := cnf["proxy-principals#spiffe"].([]any); ok {
		for _, v := range l {
			for _, u := range cert.URIs {
				if s, ok := v.(string); ok && s == u.String() {
					return true, "proxy principal"
				}
			}
		}
	}
	return false, "not bound"
}

func checkC08(r *Run) {
	pools()
	r.Bubbles("bindings", r.Tier(450, 5000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		durs := []string{"0s", "10s", "1h", "90m", "1500ms"}
		bd, off := Pick(g, durs), Pick(g, durs)
		b := &binding{thumb: g.P(80), client: g.P(40), backdate: must(time.ParseDuration(bd)), offset: must(time.ParseDuration(off)), ids: map[string][]string{}}
		cns := []string{"user.a", "user.b", "sports.api", "User.a"}
		for _, cn := range cns {
			if g.P(60) {
				for n := g.Range(0, 3); n > 0; n-- {
					b.ids[cn] = append(b.ids[cn], Pick(g, append([]string{"client.x", "client.y", "user.tok", "", cn}, cns...)))
				}
			}
		}
		az := w.Authz(nil, authorizerd.WithDisablePubkeyd(), authorizerd.WithDisablePolicyd(), authorizerd.WithDisableRoleToken(), authorizerd.WithDisableRoleCert(),
			authorizerd.WithCacheExp(Pick(g, []time.Duration{time.Second, time.Hour})),
			authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, b.thumb, bd, off, b.client, b.ids)))
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		now := time.Now().Unix()
		uris := []string{"spiffe://athenz.test/ns/a/sa/proxy1", "spiffe://athenz.test/ns/a/sa/proxy2", "athenz://role/dom/r", "spiffe://athenz.test/ns/a/sa/",
			"spiffe://athenz.test/ns/a/sa/proxy1?x=1", "spiffe://athenz.test/ns/a/sa/proxy1#f", "spiffe://u@athenz.test/ns/a/sa/proxy1", "spiffe://ATHENZ.test/ns/a/sa/proxy1", "spiffe://athenz.test/ns/a/sa/proxy%31"}
		type tok struct {
			s      string
			claims map[string]any
			iat    int64
		}
		var certs []*x509.Certificate
		var toks []tok
		// tokens and certificates close to each other, around every limit
		iats := []int64{now - 4*3600, now - 4*3600 - 10}
		mkCert := func() *x509.Certificate {
			c := CertSpec{CN: Pick(g, append([]string{"", "user.a", "user.a"}, cns...)), Issuer: Pick(g, []string{"ca", "ca", "ca2"})}
			d := Pick(g, []int64{-1, 0, 1, -2, 2, 3600, -3600, 7})
			if g.P(50) {
				d += int64(b.offset / time.Second)
			}
			c.NotBefore = time.Unix(Pick(g, iats)+d-int64(b.backdate/time.Second), 0)
			for g.P(40) {
				c.URIs = append(c.URIs, Pick(g, uris))
			}
			for g.P(30) { // names which do not count
				c.DNS = append(c.DNS, Pick(g, append([]string{"client.x", "client.y"}, cns...)))
			}
			if g.P(30) {
				c.OU = Pick(g, cns)
			}
			return c.Make()
		}
		for n := 0; n < 5; n++ {
			certs = append(certs, mkCert())
		}
		// the same names again
		c := certs[0]
		same := CertSpec{CN: c.Subject.CommonName, Issuer: c.Issuer.CommonName, NotBefore: c.NotBefore}
		if g.P(50) {
			same.NotBefore = same.NotBefore.Add(-48 * time.Hour)
		}
		certs = append(certs, same.Make(), nil)
		stranger := CertSpec{CN: "user.a", Issuer: "ca", NotBefore: time.Unix(iats[0], 0)}.Make()
		for n := 0; n < 8; n++ {
			iat := Pick(g, iats)
			cl := Pick(g, append([]string{"", "client.x", "client.y", "user.a", "user.a"}, cns...))
			sub := "user.tok"
			if g.P(25) {
				sub = Pick(g, append([]string{"user.a", "user.a", "client.x"}, cns...))
			}
			claims := ATClaims("dom", []string{"r"}, sub, cl, iat, now+30*86400)
			if g.P(40) { // times which do not count for the binding
				claims["auth_time"] = iat + Pick(g, []int64{-3600, -1, 1, 10, 3600})
			}
			if g.P(40) {
				claims["nbf"] = min(iat+Pick(g, []int64{-3600, -1, 1, 10, 3600}), now)
			}
			if g.P(30) {
				claims["uid"], claims["proxy"] = Pick(g, cns), Pick(g, cns)
			}
			if g.P(5) {
				delete(claims, "client_id")
			}
			cnf := map[string]any{}
			bound := Pick(g, append(certs[:len(certs)-1:len(certs)-1], stranger, stranger, stranger))
			tp := thumb(bound)
			switch g.N(12) {
			case 0, 1, 2, 3, 4, 5:
				cnf["x5t#S256"] = tp
			case 6:
				s := sha256.Sum256(bound.Raw)
				cnf["x5t#S256"] = Pick[any](g, []any{"", tp + "=", strings.ToLower(tp), tp[:42], tp + tp[:1], hex.EncodeToString(s[:]), base64.StdEncoding.EncodeToString(s[:]), " " + tp})
			case 7:
				cnf["x5t#S256"] = Pick[any](g, []any{nil, 1, []any{tp}, map[string]any{"x": tp}, true})
			case 8:
				cnf["x5t"] = tp
				cnf["X5T#S256"] = tp
			}
			switch g.N(8) {
			case 0, 1, 2:
				cnf["proxy-principals#spiffe"] = []any{Pick(g, uris), Pick(g, uris)}
			case 3:
				cnf["proxy-principals#spiffe"] = Pick[any](g, []any{[]any{}, uris[0], nil, []any{1, nil, []any{uris[0]}, Pick(g, uris)}, map[string]any{"a": uris[0]}, []any{strings.ToUpper(uris[0])}, []any{"spiffe://athenz.test/ns/a/sa/*"}})
			case 4:
				cnf["proxy-principals"] = []any{uris[0], uris[1]}
			}
			if len(cnf) > 0 || g.P(50) {
				claims["cnf"] = cnf
			} else if g.P(30) {
				claims["cnf"] = nil
			}
			toks = append(toks, tok{AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, claims), claims, iat})
		}
		for k := 0; k < 50; k++ {
			tk, cert := Pick(g, toks), Pick(g, certs)
			for n := g.N(30); n > 0; n-- { // look for an accepted pair
				if ok, _ := b.accepts(tk.claims, cert); ok {
					break
				}
				tk, cert = Pick(g, toks), Pick(g, certs)
			}
			want, how := b.accepts(tk.claims, cert)
			var p authorizerd.Principal
			var err error
			via := g.N(3)
			switch via {
			case 0:
				p, err = az.AuthorizeAccessToken(ctx, tk.s, "", "", cert)
			case 1:
				err = az.VerifyAccessToken(ctx, tk.s, "", "", cert)
			default:
				q := httptest.NewRequest(http.MethodGet, "https://server.test/x", nil).WithContext(ctx)
				q.Header.Set("Authorization", "Bearer "+tk.s)
				q.TLS = nil
				if cert != nil {
					q.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}}
					if g.P(50) { // the rest of the chain does not count
						q.TLS.PeerCertificates = append(q.TLS.PeerCertificates, Pick(g, certs[:6]), stranger)
					}
				} else if g.P(50) {
					q.TLS = &tls.ConnectionState{}
				}
				p, err = az.Authorize(q, "", "")
			}
			desc := "none"
			if cert != nil {
				desc = fmt.Sprintf("CN %q issuer %q not before iat%+d URIs %v thumbprint %s", cert.Subject.CommonName, cert.Issuer.CommonName, cert.NotBefore.Unix()-tk.iat, cert.URIs, thumb(cert))
			}
			r.Eval(true, bd, off, b.thumb, b.client, b.ids, tk.claims, desc)
			r.Count(fmt.Sprintf("%v by %s", map[bool]string{true: "accepted", false: "rejected"}[want], how), 1)
			if (err == nil) != want {
				r.Violate(i, "binding", "config thumbprint %v backdate %s offset %s client IDs %v %v: certificate %s: accepted %v, expected %v (%s), error %v, request %d by way %d\nclaims %v", b.thumb, bd, off, b.client, b.ids, desc, err == nil, want, how, err, k, via, tk.claims)
				return
			}
			if want && via != 1 {
				a := ansOf(p, err)
				cl, _ := tk.claims["client_id"].(string)
				if a.Client != cl || a.Issue != tk.iat || a.Name != tk.claims["sub"] {
					r.Violate(i, "principal", "principal %v of claims %v", a, tk.claims)
				}
			}
		}
	})
	for _, s := range []string{"accepted by thumbprint", "accepted by refreshed certificate", "accepted by proxy principal", "accepted by client ID", "rejected by not bound", "rejected by client ID", "rejected by no certificate"} {
		r.Need(s, 100)
	}
}
