package vh

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kpango/glg"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C21"] = checkC21 }

const sigWindow = 16

// secretLog receives everything which is logged and looks for parts of registered signatures.
type secretLog struct {
	mu    sync.Mutex
	buf   bytes.Buffer
	lines int
	total int

	smu  sync.RWMutex
	wins map[string]string // part of a signature to what it is of
}

func (l *secretLog) Write(p []byte) (int, error) {
	l.mu.Lock()
	l.buf.Write(p)
	l.lines++
	l.total += len(p)
	l.mu.Unlock()
	return len(p), nil
}

func (l *secretLog) register(sig, what string) int {
	n := 0
	l.smu.Lock()
	defer l.smu.Unlock()
	for i := 0; i+sigWindow <= len(sig); i++ {
		w := sig[i : i+sigWindow]
		d := map[byte]bool{}
		for j := 0; j < len(w); j++ {
			d[w[j]] = true
		}
		if len(d) >= 8 {
			l.wins[w] = what
			n++
		}
	}
	return n
}

// scan looks at what was logged since the last scan.
func (l *secretLog) scan(report func(line, part, what string)) {
	l.mu.Lock()
	b := append([]byte{}, l.buf.Bytes()...)
	l.buf.Reset()
	l.mu.Unlock()
	l.smu.RLock()
	defer l.smu.RUnlock()
	for _, line := range bytes.Split(b, []byte("\n")) {
		for i := 0; i+sigWindow <= len(line); i++ {
			if what, ok := l.wins[string(line[i:i+sigWindow])]; ok {
				report(string(line), string(line[i:i+sigWindow]), what)
				break
			}
		}
	}
}

// sigParts are the signatures in a token: what follows "s=" in a field, and the last of three or more segments.
func sigParts(tok string) []string {
	var out []string
	add := func(s string) {
		s = strings.TrimSpace(s)
		if len(s) < 40 {
			return
		}
		for _, c := range s {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("-_.+/", c)) {
				return
			}
		}
		out = append(out, s)
	}
	if strings.Contains(tok, ";s=") {
		for _, f := range strings.Split(tok, ";") {
			if v, ok := strings.CutPrefix(f, "s="); ok {
				add(v)
			}
		}
		return out
	}
	if seg := strings.Split(tok, "."); len(seg) >= 3 {
		add(seg[len(seg)-1])
	}
	return out
}

func checkC21(r *Run) {
	pools()
	lg := &secretLog{wins: map[string]string{}}
	g0 := glg.Get()
	g0.SetMode(glg.WRITER).SetLevel(glg.DEBG)
	for _, lv := range []glg.LEVEL{glg.DEBG, glg.TRACE, glg.PRINT, glg.LOG, glg.INFO, glg.OK, glg.WARN, glg.ERR, glg.FAIL, glg.FATAL} {
		g0.SetLevelWriter(lv, lg)
	}
	look := func(i int) {
		lg.scan(func(line, part, what string) {
			r.Violate(i, "leak", "a part %q of the signature of a token (%s) was logged: %s", part, what, line)
		})
	}
	r.Bubbles("tokens", r.Tier(250, 3000), func(t *testing.T, i int, g *Rng) {
		w := newATWorld(g)
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		defer look(i)
		const dom = "dom"
		w.ServePolicy(w.Doc(dom, time.Now().Add(4000*time.Hour), []Ass{{"dom:role.r1", "*", "dom:*", "allow"}, {"dom:role.r2", "x", "dom:y", "deny"}}))
		bind := g.P(40)
		opts := []authorizerd.Option{authorizerd.WithCacheExp(time.Hour), authorizerd.WithJwkURLs(w.URLs), authorizerd.WithEnableRoleToken(),
			authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(g.P(90), bind, "1h", "1h", g.P(20), map[string][]string{"cn": {"client.a"}}))}
		if g.P(25) {
			opts = append(opts, authorizerd.WithDisablePolicyd())
		}
		if g.P(30) {
			opts = append(opts, authorizerd.WithTranslator(queryTranslator{}))
		}
		if g.P(15) {
			opts = append(opts, authorizerd.WithEnableRoleCert())
		}
		az := w.Authz([]string{dom}, opts...)
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		cert := CertSpec{CN: "cn", Issuer: "ca:x", NotBefore: time.Now(), URIs: []string{"athenz://role/dom/r1"}}.Make()
		for k := 0; k < 30; k++ {
			var tok, what string
			var c2 string
			if g.P(50) {
				c := genRT(g, w.World, dom, []string{"r1", "r2"}[:g.Range(1, 2)])
				tok, what, c2 = c.tok, "role token "+c.what, c.valid
			} else {
				c := genAT(g, w, dom, []string{"r1", "r2"}[:g.Range(1, 2)])
				tok, what = c.tok, "access token "+c.what
				if bind && g.P(70) {
					now := time.Now().Unix()
					cl := ATClaims(dom, []string{"r1"}, "user", "client.a", now-5, now+500)
					cl["cnf"] = map[string]any{"x5t#S256": thumb(cert)}
					tok, what = AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, cl), "bound access token"
				}
			}
			if g.P(12) {
				s := ""
				if l := sigParts(tok); len(l) > 0 {
					s = l[0]
				}
				switch g.N(10) {
				case 0:
					tok, what = tok+";s="+s, what+", signature twice"
				case 1:
					tok, what = tok+"."+s, what+", one more segment"
				case 2:
					tok, what = tok+" ", what+", blank after"
				case 3:
					tok, what = tok+".", what+", dot after"
				case 4:
					tok, what = tok+"\n", what+", newline after"
				case 5:
					tok, what = " "+tok, what+", blank before"
				case 6:
					tok, what = tok+";x=y", what+", field after"
				case 7, 8: // escaping makes these longer
					u := RT{Domain: dom, Roles: []string{"r1"}, Principal: "user.a", T: time.Now().Unix(), E: time.Now().Unix() + 1000, KeyID: "zts1"}.Unsigned() + ";zz=" + strings.Repeat(Pick(g, []string{":", `\`, `\:`, "%3A"}), g.Range(20, 90))
					tok, what = u+";s="+w.ZTSKeys["zts1"].Sign(u), "role token with colons"
					for _, s := range sigParts(tok) {
						r.Count("registered windows", lg.register(s, what))
					}
				case 9:
					tok, what = strings.Repeat(Pick(g, []string{":", `\`}), g.Range(20, 90))+tok, what+", after colons"
				}
				r.Count("registered windows", lg.register(s, what))
			}
			n := 0
			for _, s := range append(sigParts(tok), sigParts(c2)...) {
				n += lg.register(s, what)
			}
			r.Count("registered windows", n)
			r.Count("signatures", b2i(n > 0))
			ok := 0
			see := func(err error) { ok += b2i(err == nil) }
			act, res := Pick(g, []string{"x", "read", "", "y"}), Pick(g, []string{"y", "res", "", "a:b"})
			for m := 0; m < 2; m++ { // the second time maybe from the cache
				see(az.VerifyRoleToken(ctx, tok, act, res))
				see(second(az.AuthorizeRoleToken(ctx, tok, act, res)))
				see(az.VerifyAccessToken(ctx, tok, act, res, nil))
				see(second(az.AuthorizeAccessToken(ctx, tok, act, res, cert)))
				q := httptest.NewRequest("GET", "https://server.test/p", nil).WithContext(ctx)
				q.URL.RawQuery = Pick(g, []string{"", "a=b", "bad=1"})
				if g.P(50) {
					q.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{cert}}
				}
				q.Header.Set("Authorization", Pick(g, []string{"Bearer ", "bearer ", "", "Basic "})+tok)
				q.Header.Set("Athenz-Role-Auth", tok)
				see(az.Verify(q, act, res))
				see(second(az.Authorize(q, act, res)))
			}
			r.Count("granted", ok)
			r.Count("calls", 12)
			r.Eval(n > 0, tok)
		}
		lg.mu.Lock()
		big := lg.buf.Len() > 1<<22
		lg.mu.Unlock()
		if big {
			look(i)
		}
	})
	look(-1)
	// the monitor itself: what is logged is seen, by every level
	mark := "Zm9vYmFyQmF6UXV4MTIz"
	lg.register(mark, "self test")
	for _, f := range []func(...interface{}) error{glg.Debug, glg.Info, glg.Warn, glg.Error, glg.Log, glg.Print, glg.Success, glg.Trace, glg.Fail} {
		f("prefix " + mark + " suffix")
		seen := 0
		lg.scan(func(string, string, string) { seen++ })
		if seen == 0 {
			r.Inconclusive("the log is not seen by the monitor")
		}
	}
	r.Count("log lines", lg.lines)
	r.Count("log bytes", lg.total)
	r.Need("signatures", 2000)
	r.Need("granted", 2000)
	r.Need("log lines", 20000)
}
