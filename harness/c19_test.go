package vh

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kpango/glg"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/client"

	"verifharness/pt"
)

func init() { checks["C19"] = checkC19 }

// stateless is a server without any memory which is written after its construction, because locks and counters would
// order the accesses of the goroutines which make the requests and so hide their races from the race detector.
type stateless struct {
	zts, zms, jwks, extra []page19
	docs                  map[string][]doc19
	faults                int // percent
}

type page19 struct {
	body []byte
	etag string
}

type doc19 struct {
	page19
	exp time.Time
}

func (s *stateless) RoundTrip(r *http.Request) (*http.Response, error) {
	if d := rand.IntN(3); d > 0 {
		time.Sleep(time.Duration(rand.IntN(2000)) * time.Microsecond)
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if rand.IntN(100) < s.faults {
		switch rand.IntN(4) {
		case 0:
			return nil, &netErr{rand.IntN(2) == 0}
		case 1:
			return resp19(r, Pick19([]int{404, 429, 500, 503}), nil, ""), nil
		case 2:
			return resp19(r, 200, []byte(`{"keys": 1, "publicKeys": [{"id": "x", "key": "x"}]`), `"bad"`), nil
		}
		return resp19(r, 200, []byte(`{}`), `"empty"`), nil
	}
	var p page19
	u := r.URL.String()
	switch {
	case strings.HasSuffix(u, "/service/zts"):
		p = Pick19(s.zts)
	case strings.HasSuffix(u, "/service/zms"):
		p = Pick19(s.zms)
	case strings.HasSuffix(u, jwksPath):
		p = Pick19(s.jwks)
	case strings.Contains(u, "other.test"):
		p = Pick19(s.extra)
	default:
		l := s.docs[strings.TrimSuffix(strings.TrimPrefix(u, "https://"+stdBase+"/domain/"), "/signed_policy_data")]
		if len(l) == 0 {
			return nil, errors.New("verif: unexpected request " + u)
		}
		// the ones expiring soon
		now := time.Now()
		i := 0
		for i < len(l)-1 && l[i].exp.Before(now) {
			i++
		}
		i += rand.IntN(8)
		if rand.IntN(4) == 0 {
			i = len(l) - 1
		}
		p = l[min(i, len(l)-1)].page19
	}
	if m := r.Header.Get("If-None-Match"); m != "" && (m == p.etag || rand.IntN(4) == 0) {
		return resp19(r, 304, nil, m), nil
	}
	return resp19(r, 200, p.body, p.etag), nil
}

func Pick19[T any](l []T) T { return l[rand.IntN(len(l))] }

func resp19(r *http.Request, status int, body []byte, etag string) *http.Response {
	h := http.Header{}
	if etag != "" {
		h.Set("ETag", etag)
	}
	return &http.Response{Status: strconv.Itoa(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: r}
}

type target19 struct {
	az       authorizerd.Authorizerd
	rts, ats []string
	certs    []*x509.Certificate
	life     time.Duration
	cancels  bool
	direct   bool
}

func checkC19(r *Run) {
	pools()
	RSA(0)
	rounds := r.Tier(6, 120)
	const life = 1800 * time.Millisecond
	doms := []string{"dom.a", "dom.b"}
	var cancelled atomic.Int64

	// everything is made up front
	newTarget := func(g *Rng, start time.Time) *target19 {
		w := NewWorld()
		w.ZTSKeys["2"], w.JWKeys["2"] = EC(7), EC(8)
		s := &stateless{docs: map[string][]doc19{}, faults: Pick(g, []int{0, 10, 30})}
		for n := 0; n < 4; n++ {
			if n > 0 {
				w.ZTSKeys["2"], w.JWKeys["2"] = EC(8+n), EC(9+n)
				w.ZMSKeys["2"] = EC(10 + n)
			}
			s.zts = append(s.zts, page19{pubKeyDoc("zts", w.ZTSKeys), fmt.Sprintf(`"z%d"`, n)})
			s.zms = append(s.zms, page19{pubKeyDoc("zms", w.ZMSKeys), fmt.Sprintf(`"m%d"`, n)})
			s.jwks = append(s.jwks, page19{jwksDoc(w.JWKeys), ""})
			s.extra = append(s.extra, page19{jwksDoc(map[string]*Key{"x": EC(11 + n)}), ""})
		}
		for _, d := range doms {
			for n := 0; n < 100; n++ {
				var asss []Ass
				for k := g.Range(2, 9); k > 0; k-- {
					asss = append(asss, Ass{fmt.Sprintf("%s:role.r%d", d, g.N(4)), Pick(g, []string{"act", "*", "a*"}), d + ":" + Pick(g, []string{"res", "*", "r?s"}), Pick(g, []string{"allow", "allow", "allow", "deny"})})
				}
				doc := w.Doc(d, start.Add(time.Duration(n)*life/80), asss)
				if n == 99 {
					doc.Expires = start.Add(24 * time.Hour)
				}
				s.docs[d] = append(s.docs[d], doc19{page19{doc.JSON(), fmt.Sprintf(`"p%d"`, n)}, doc.Expires})
			}
		}
		var tr http.RoundTripper = s
		if g.P(50) {
			tr = must(client.NewExponentialRoundTripper(s, 50, 3, time.Second))
		}
		ms := func(lo, hi int) string { return fmt.Sprintf("%dms", g.Range(lo, hi)) }
		bind := g.P(40)
		opts := []authorizerd.Option{authorizerd.WithHTTPClient(&http.Client{Transport: tr, Timeout: Pick(g, []time.Duration{0, 2 * time.Millisecond, time.Second})}),
			authorizerd.WithEnableRoleToken(), authorizerd.WithJwkURLs([]string{"https://other.test/keys"}),
			authorizerd.WithCacheExp(g.Dur(5*time.Millisecond, 60*time.Millisecond)),
			authorizerd.WithPubkeyRefreshPeriod(ms(2, 40)), authorizerd.WithPubkeyRetryDelay(ms(1, 10)), authorizerd.WithPubkeyETagExpiry(ms(5, 100)), authorizerd.WithPubkeyETagPurgePeriod(ms(5, 60)),
			authorizerd.WithPolicyRefreshPeriod(ms(2, 200)), authorizerd.WithPolicyRetryDelay(ms(1, 10)), authorizerd.WithPolicyRetryAttempts(g.Range(1, 2)), authorizerd.WithPolicyExpiryMargin(ms(1, 200)), authorizerd.WithPolicyPurgePeriod(ms(5, 60)),
			authorizerd.WithJwkRefreshPeriod(ms(2, 40)), authorizerd.WithJwkRetryDelay(ms(1, 10)),
			authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, bind, "1h", "1h", g.P(20), map[string][]string{"c": {"c"}}))}
		if g.P(40) {
			opts = append(opts, authorizerd.WithTranslator(must(authorizerd.NewMappingRules(map[string][]authorizerd.Rule{
				"dom.a": {{Method: "get", Path: "/p/{a}?q={b}", Action: "act", Resource: "{a}.{b}"}, {Method: "act", Path: "/res", Action: "act", Resource: "res"}}}))))
		}
		if g.P(30) {
			opts = append(opts, authorizerd.WithEnableRoleCert())
		}
		if g.P(12) {
			opts = append(opts, authorizerd.WithDisablePolicyd())
		}
		if g.P(8) {
			opts = append(opts, authorizerd.WithDisableJwkd())
		}
		t := &target19{az: w.Authz(doms, opts...), life: life - g.Dur(0, life/2), cancels: g.P(70)}
		t.certs = []*x509.Certificate{CertSpec{CN: "c", Issuer: "ca", NotBefore: time.Now(), URIs: []string{"athenz://role/dom.a/r1"}}.Make(), CertSpec{CN: "dom.b:role.r2", Issuer: "ca", NotBefore: time.Now()}.Make()}
		now := time.Now().Unix()
		for n := 0; n < 24; n++ {
			d, roles := Pick(g, doms), []string{"r0", "r1", "r2", "r3"}[g.N(3):]
			t.rts = append(t.rts, w.RoleToken(d, roles, fmt.Sprint("p", n)))
			cl := ATClaims(d, roles, fmt.Sprint("p", n), "c", now-5, now+5000)
			if bind {
				cl["cnf"] = map[string]any{"x5t#S256": thumb(t.certs[0])}
			}
			t.ats = append(t.ats, AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, cl))
		}
		t.rts = append(t.rts, "x", ";s=", RT{Domain: "dom.a", Roles: []string{"r1"}, Principal: "p", T: now, E: now + 100, KeyID: "2"}.Sign(EC(9)))
		t.ats = append(t.ats, "x.y.z", AT(EC(9), map[string]any{"kid": "2"}, ATClaims("dom.a", []string{"r1"}, "u", "c", now-5, now+100)),
			AT(EC(12), map[string]any{"kid": "x", "jku": "https://other.test/keys"}, ATClaims("dom.a", []string{"r1"}, "u", "c", now-5, now+100)))
		return t
	}

	traffic := func(t *target19, until time.Time) (n [10]int, granted int) {
		ctx := context.Background()
		see := func(err error) { granted += b2i(err == nil) }
		for time.Now().Before(until) {
			for k := 0; k < 20; k++ {
				rt, at := Pick19(t.rts), Pick19(t.ats)
				act, res := "act", Pick19([]string{"res", "rxs", "/p/x", "other"})
				if rand.IntN(3) > 0 {
					res = strconv.Itoa(rand.IntN(40))
				}
				cert := Pick19(append(t.certs, nil))
				m := rand.IntN(10)
				n[m]++
				var p authorizerd.Principal
				var err error
				switch m {
				case 0:
					err = t.az.VerifyRoleToken(ctx, rt, act, res)
				case 1:
					p, err = t.az.AuthorizeRoleToken(ctx, rt, act, res)
				case 2:
					err = t.az.VerifyAccessToken(ctx, at, act, res, cert)
				case 3:
					p, err = t.az.AuthorizeAccessToken(ctx, at, act, res, cert)
				case 4:
					err = t.az.VerifyRoleCert(ctx, t.certs, act, res)
				case 5:
					_, err = t.az.AuthorizeRoleCert(ctx, t.certs, act, res)
				case 6, 7:
					q := httptest.NewRequest("GET", "https://server.test/p?q=z", nil)
					if rand.IntN(2) == 0 {
						q.Header.Set("Authorization", "Bearer "+at)
						q.TLS = &tls.ConnectionState{PeerCertificates: t.certs}
					}
					q.Header.Set("Athenz-Role-Auth", rt)
					if m == 6 {
						err = t.az.Verify(q, act, res)
					} else {
						p, err = t.az.Authorize(q, act, res)
					}
				case 8:
					cctx, cancel := context.WithTimeout(ctx, time.Duration(rand.IntN(300))*time.Microsecond)
					p, err = t.az.AuthorizeRoleToken(cctx, rt, act, res)
					cancel()
				case 9:
					for role, v := range t.az.GetPolicyCache(ctx) {
						if s := fmt.Sprintf("%s %+v", role, v); len(s) == 0 {
							panic("empty")
						}
					}
				}
				see(err)
				if err == nil && p != nil {
					s := fmt.Sprint(p.Name(), p.Roles(), p.Domain(), p.IssueTime(), p.ExpiryTime(), p.AuthorizedRoles())
					if o, ok := p.(authorizerd.OAuthAccessToken); ok {
						s += o.ClientID()
					}
					if len(s) == 0 {
						panic("empty")
					}
				}
			}
			r.progress.Add(1)
		}
		return
	}

	// the locks of the logger order what it is called by, so there is a run with and one without it
	if os.Getenv("VERIF_LOGGING") != "" {
		glg.Get().SetMode(glg.WRITER).SetWriter(io.Discard).SetLevel(glg.DEBG)
	} else {
		glg.Get().SetMode(glg.NONE)
	}
	r.T.Run("stress", func(tt *testing.T) {
		for i := 0; i < rounds; i++ {
			g := NewRng(r.Seed, "|C19|", i)
			start := time.Now().Add(300 * time.Millisecond)
			var ts []*target19
			for k := 0; k < 3; k++ {
				ts = append(ts, newTarget(g, start))
			}
			switch i % 4 {
			case 0, 1:
				perturbOn(g, siteHot(g)...)
			default:
				pt.Disable()
			}
			var wg sync.WaitGroup
			for _, t := range ts {
				until := time.Now().Add(life + 200*time.Millisecond)
				ctx, cancel := context.WithCancel(context.Background())
				wg.Add(1)
				again := g.P(30)
				go func() {
					defer wg.Done()
					ini := func() { r.Count("initializations", b2i(t.az.Init(ctx) == nil)) }
					ini()
					el := newErrLog(t.az.Start(ctx))
					if again {
						time.Sleep(life / 4)
						ini() // while everything is running
					}
					time.Sleep(t.life)
					cancel()
					cancelled.Add(1)
					<-el.done
					r.Count("background errors", len(el.get()))
				}()
				for k := 0; k < 5; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						n, granted := traffic(t, until)
						all := 0
						for m, c := range n {
							r.Count(fmt.Sprintf("calls %02d", m), c)
							all += c
						}
						r.Count("calls", all)
						r.Count("granted", granted)
						r.Eval(true, i, k, all, granted)
					}()
				}
			}
			wg.Wait()
		}
	})
	pt.Disable()
	r.Count("shutdowns during requests", int(cancelled.Load()))
	ptReport(r)
	// constructed at the same time, while others are asked
	for k := 0; k < r.Tier(5, 50); k++ {
		w := NewWorld()
		running := w.Authz(doms)
		tok := w.RoleToken("dom.a", []string{"r"}, "u")
		var wg sync.WaitGroup
		for n := 0; n < 8; n++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for m := 0; m < 5; m++ {
					if n%2 == 0 {
						NewWorld().Authz(doms)
					} else {
						running.AuthorizeRoleToken(context.Background(), tok, "read", "x")
					}
				}
			}()
		}
		wg.Wait()
		r.Count("authorizers constructed at the same time", 20)
	}
	r.Need("calls", 2000)
	r.Need("granted", 150)
	r.Need("background errors", 3)
	r.Need("shutdowns during requests", 10)
}

// siteHot picks some of the statements reached so far, which get long delays.
func siteHot(g *Rng) []int {
	l := pt.HitSites()
	if len(l) == 0 {
		return nil
	}
	var h []int
	for n := 0; n < 3; n++ {
		h = append(h, Pick(g, l))
	}
	return h
}
