package vh

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

func init() { checks["C23"] = checkC23 }

func checkC23(r *Run) {
	pools()
	r.Bubbles("lives", r.Tier(350, 4000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		w.Base = Pick(g, []string{stdBase, "athenz.test", "athenz.test:4443/zts/v1", "127.0.0.1:8443", "zts.example.com/a/b-c/v1", "localhost/zts"})
		w.Sys = Pick(g, []string{"sys.auth", "sys.auth", "my.sys-auth"})
		w.ServeKeys()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		doms := Shuffle(g, []string{"dom.a", "dom_b.c-d", "home.user", "dom.a", "Dom.A", "HOME"})[:g.Range(1, 6)]
		extra := Shuffle(g, []string{"https://other.test/keys", "http://plain.test:8080/jwks?x=1&y=%20z", "https://" + w.Base + "/more/keys", "https://other.test/keys?rfc=true"})[:g.N(4)]
		for n, u := range extra {
			w.SetExtra(u, jwksDoc(map[string]*Key{"x": EC(8 + n)}), 1)
		}
		noPub, noPol, noJwk := g.P(10), g.P(10), g.P(10)
		allowed := map[string]bool{}
		if !noPub {
			allowed["https://"+w.Base+"/domain/"+w.Sys+"/service/zts"] = true
			allowed["https://"+w.Base+"/domain/"+w.Sys+"/service/zms"] = true
		}
		if !noJwk {
			allowed["https://"+w.Base+"/oauth2/keys?rfc=true"] = true
			for _, u := range extra {
				allowed[u] = true
			}
		}
		for _, d := range doms {
			if !noPol {
				allowed["https://"+w.Base+"/domain/"+d+"/signed_policy_data"] = true
			}
			w.ServePolicy(w.Doc(d, time.Now().Add(g.Dur(20*time.Minute, 50*time.Hour)), []Ass{{d + ":role.r", "act", d + ":res", "allow"}}))
		}
		given := Pick(g, []string{"https://", "http://", ""}) + w.Base
		opts := []authorizerd.Option{authorizerd.WithAthenzURL(given), authorizerd.WithEnableRoleToken(), authorizerd.WithJwkURLs(extra),
			authorizerd.WithPubkeySysAuthDomain(w.Sys), authorizerd.WithHTTPClient(w.Client(10 * time.Second)),
			authorizerd.WithPubkeyRefreshPeriod("7m"), authorizerd.WithPolicyRefreshPeriod("4m"), authorizerd.WithJwkRefreshPeriod("5m"),
			authorizerd.WithPubkeyRetryDelay("20s"), authorizerd.WithJwkRetryDelay("20s"), authorizerd.WithPolicyRetryDelay("5s")}
		for _, o := range []struct {
			no  bool
			opt authorizerd.Option
		}{{noPub, authorizerd.WithDisablePubkeyd()}, {noPol, authorizerd.WithDisablePolicyd()}, {noJwk, authorizerd.WithDisableJwkd()}} {
			if o.no {
				opts = append(opts, o.opt)
			}
		}
		cfg := fmt.Sprintf("athenz %q system domain %q domains %v extra %v disabled pubkeyd %v policyd %v jwkd %v", given, w.Sys, doms, extra, noPub, noPol, noJwk)
		var texts []string // of credentials
		var pct atomic.Int64
		var mu sync.Mutex
		fg := NewRng(g.U64())
		w.SetFault(func(p string, q *http.Request, rec *Req) (Resp, bool) {
			var b bytes.Buffer
			q.Header.Write(&b)
			mu.Lock()
			defer mu.Unlock()
			for _, s := range texts {
				if strings.Contains(b.String(), s) || strings.Contains(q.URL.String(), s) {
					r.Violate(i, "leak", "%s: text of a credential in the request of %s: %s", cfg, q.URL, b.String())
				}
			}
			if q.Body != nil && q.Body != http.NoBody {
				r.Violate(i, "request body", "%s: a request of %s with a body", cfg, q.URL)
			}
			if q.Header.Get("Authorization") != "" || q.Header.Get("Cookie") != "" || q.URL.User != nil {
				r.Violate(i, "leak", "%s: credentials in the request of %s: %s", cfg, q.URL, b.String())
			}
			if !fg.P(int(pct.Load())) {
				return Resp{}, false
			}
			k := fg.N(outageWays + 6)
			r.Count(fmt.Sprintf("fault %d", k), 1)
			switch k - outageWays {
			case 0: // a body which fails in the middle
				return Resp{Status: 200, Body: []byte(`{"keys":[{"kid":`), BodyErr: errors.New("verif: connection reset")}, true
			case 1: // a big body after the document
				return Resp{Status: 200, Body: append([]byte("{} "), make([]byte, 300000)...)}, true
			case 2: // not modified without being asked
				return Resp{Status: 304, Header: map[string]string{"ETag": `"x"`, "Location": "https://evil.test/moved", "Content-Location": "https://evil.test/here"}}, true
			case 3: // with an address, of a status which is no redirection
				h := map[string]string{}
				if fg.P(50) {
					h[Pick(fg, []string{"Location", "Content-Location", "Refresh", "Alt-Svc"})] = Pick(fg, []string{"https://evil.test/moved", "0; url=https://evil.test/x", `h2="evil.test:443"`})
				}
				return Resp{Status: Pick(fg, []int{201, 204, 206, 300, 305, 400, 403, 418, 429, 500, 502, 503, 504, 599}), Header: h, Body: make([]byte, fg.N(100000))}, true
			case 4:
				return Resp{Status: Pick(fg, []int{500, 404, 304}), BodyErr: errors.New("verif: connection reset")}, true
			case 5:
				return Resp{Status: 302, Body: []byte("moved without location")}, true
			}
			return outage{way: k}.resp(true), true
		})
		az := must(authorizerd.New(w.Options(doms, opts...)...))
		pct.Store(Pick(g, []int64{0, 0, 30}))
		az.Init(ctx)
		pct.Store(Pick(g, []int64{0, 20, 40, 90}))
		if g.P(80) {
			drain(az.Start(ctx))
		}
		check := func(when string) bool {
			reqs := w.Reqs()
			for _, q := range reqs {
				if q.Method != "GET" || !allowed[q.URL] {
					r.Violate(i, "request", "%s: %s of %q, allowed are %v", cfg, q.Method, q.URL, sortedKeys(allowed))
					return false
				}
				r.Eval(true, q.URL, q.IfNoneMatch != "", q.Status)
			}
			return true
		}
		evil := func() string {
			return Pick(g, []string{"https://evil.test/keys", "http://evil.test/", "https://" + w.Base + "/../evil", "https://" + w.Base + "/oauth2/keys", "https://" + w.Base + "/oauth2/keys?rfc=false",
				"file:///etc/passwd", "//evil.test/x", "https://other.test/keys/../x", "../../x", "https://other.test:444/keys", "https://other.test/keys#frag", "ldap://evil.test/a"})
		}
		for n := 0; n < 40; n++ {
			now := time.Now().Unix()
			nonce := fmt.Sprintf("nonce-%d-%d", i, n)
			mu.Lock()
			texts = append(texts, nonce)
			mu.Unlock()
			d := Pick(g, append([]string{"evil.dom", "../../x", "dom.a/signed_policy_data?", "sys.auth"}, doms...))
			kid := Pick(g, []string{"at1", "x", "../x", "https://evil.test/keys", nonce, ""})
			rt := RT{Domain: d, Roles: []string{"r", nonce}, Principal: nonce, T: now - 1, E: now + 500, KeyID: Pick(g, []string{"zts1", "nokey", "../zms", "https://evil.test", nonce})}
			h := map[string]any{"kid": kid, "jku": evil()}
			if g.P(20) {
				delete(h, "jku")
			}
			if g.P(20) {
				h["x5u"], h["jwk"] = evil(), map[string]any{"kid": nonce}
			}
			c := ATClaims(d, []string{"r"}, nonce, "c", now-1, now+500)
			c["iss"] = evil()
			at := AT(w.JWKeys["at1"], h, c)
			q := httptest.NewRequest("GET", "https://server.test/"+nonce, nil).WithContext(ctx)
			q.Header.Set("Authorization", "Bearer "+at)
			q.Header.Set("Athenz-Role-Auth", rt.Sign(w.ZTSKeys["zts1"]))
			az.Authorize(q, "act", Pick(g, []string{"res", "https://evil.test/" + nonce}))
			az.VerifyRoleToken(ctx, rt.Sign(w.ZTSKeys["zts1"]), nonce, evil())
			az.VerifyAccessToken(ctx, at, nonce, evil(), nil)
			r.Count("hostile credentials", 1)
			time.Sleep(g.Dur(0, 5*time.Minute))
		}
		if !check("running") {
			return
		}
		cancel()
		time.Sleep(30 * time.Hour)
		if !check("stopped") {
			return
		}
		n := w.NReqs()
		time.Sleep(24 * time.Hour)
		for _, q := range w.Reqs()[:n] {
			if q.Body != nil {
				r.Count("bodies", 1)
				if !q.Body.closed.Load() {
					r.Violate(i, "body", "%s: the body of the response to %s at %v (status %d, %d bytes) was never closed", cfg, q.URL, q.At, q.Status, q.Body.rd.Size())
					return
				}
			}
		}
		r.Count("requests", n)
	})

	// construction
	cases := 0
	for _, scheme := range []string{"ftp", "file", "gopher", "ws", "wss", "ldap", "unix", "h2c", "httpss", "xhttps", "git+ssh", "a"} {
		for _, rest := range []string{"athenz.test/zts/v1", "/etc/passwd", "athenz.test:443", ""} {
			u := scheme + "://" + rest
			for _, v := range []string{u, "https://" + u, "http://" + u} {
				_, e1 := authorizerd.New(authorizerd.WithAthenzURL(v))
				_, e2 := policy.New(policy.WithAthenzURL(v))
				_, e3 := pubkey.New(pubkey.WithAthenzURL(v))
				_, e4 := jwk.New(jwk.WithAthenzJwksURL(v))
				var e5, e6, e7 error = errors.New(""), errors.New(""), errors.New("")
				if v == u {
					_, e5 = authorizerd.New(authorizerd.WithAthenzURL("athenz.test"), authorizerd.WithJwkURLs([]string{"https://ok.test/keys", v}))
					_, e6 = jwk.New(jwk.WithAthenzJwksURL("athenz.test"), jwk.WithURLs([]string{v}))
					_, e7 = authorizerd.New(authorizerd.WithAthenzURL("athenz.test"), authorizerd.WithJwkURLs([]string{scheme + ":" + rest}))
				}
				for n, e := range []error{e1, e2, e3, e4, e5, e6, e7} {
					cases++
					r.Eval(true, "construct", v, n)
					if e == nil {
						r.Violate(-1, "scheme", "construction %d accepts the URL %q", n, v)
					}
				}
			}
		}
	}
	for _, v := range []string{"https://athenz.test/zts/v1", "http://athenz.test/zts/v1", "athenz.test/zts/v1", "athenz.test:4443"} {
		for n, e := range []error{
			second(authorizerd.New(authorizerd.WithAthenzURL(v), authorizerd.WithEnableRoleToken())),
			second(policy.New(policy.WithAthenzURL(v))), second(pubkey.New(pubkey.WithAthenzURL(v))), second(jwk.New(jwk.WithAthenzJwksURL(v))),
		} {
			r.Eval(true, "construct", v, n)
			if e != nil {
				r.Violate(-1, "scheme", "construction %d rejects the URL %q: %v", n, v, e)
			}
		}
	}
	r.Count("constructions", cases)
	r.Need("hostile credentials", 5000)
	r.Need("requests", 10000)
	r.Need("bodies", 5000)
}

func second[T any](_ T, err error) error { return err }
