package vh

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"

	"verifharness/pt"
)

func init() { checks["C09"] = checkC09 }

// queryTranslator makes the decision depend on the query.
type queryTranslator struct{}

func (queryTranslator) Translate(domain, method, path, query string) (string, string, error) {
	if strings.Contains(query, "bad") {
		return "", "", errors.New("verif: bad query")
	}
	// case matters here, but not to the policies
	n := 0
	for _, c := range method + path + query {
		n += b2i(c >= 'A' && c <= 'Z')
	}
	return method, path + "|" + query + strings.Repeat("^", n), nil
}

type question struct {
	kind     string // "rt", "at", "req rt", "req at", "req both", "cert"
	rt, at   string
	act, res string
	query    string
	cert     *x509.Certificate
	certName string
	verify   bool
}

func (q question) String() string {
	return fmt.Sprintf("%s act %q res %q query %q cert %s verify %v", q.kind, q.act, q.res, q.query, q.certName, q.verify)
}

func (q question) ask(ctx context.Context, az authorizerd.Authorizerd) Ans {
	switch q.kind {
	case "rt":
		if q.verify {
			return Ans{OK: az.VerifyRoleToken(ctx, q.rt, q.act, q.res) == nil}
		}
		return ansOf(az.AuthorizeRoleToken(ctx, q.rt, q.act, q.res))
	case "at":
		if q.verify {
			return Ans{OK: az.VerifyAccessToken(ctx, q.at, q.act, q.res, q.cert) == nil}
		}
		return ansOf(az.AuthorizeAccessToken(ctx, q.at, q.act, q.res, q.cert))
	}
	r := httptest.NewRequest("GET", "https://server.test/", nil).WithContext(ctx)
	r.URL.RawQuery = q.query
	r.TLS = nil
	if q.cert != nil {
		r.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{q.cert}}
	}
	if q.kind != "req at" {
		r.Header.Set("Athenz-Role-Auth", q.rt)
	}
	if q.kind != "req rt" {
		r.Header.Set("Authorization", "Bearer "+q.at)
	}
	if q.verify {
		return Ans{OK: az.Verify(r, q.act, q.res) == nil}
	}
	return ansOf(az.Authorize(r, q.act, q.res))
}

type c09World struct {
	w     *World
	fresh func() authorizerd.Authorizerd
	qs    []question
	cfg   string
}

func newC09(r *Run, g *Rng, ctx context.Context, nq int) *c09World {
	w := NewWorld()
	weird := func() string {
		s := ""
		for n := g.Range(1, 3); n > 0; n-- {
			s += Pick(g, []string{"a", "b", ":", `\`, "#", `\#`, `\:`, "a:b", "|", ".", ";s="})
		}
		return s
	}
	const dom = "dom"
	var strs []string
	for k := 0; k < 5; k++ {
		s := weird()
		strs = append(strs, s)
		if i := strings.IndexByte(s, ':'); i >= 0 {
			strs = append(strs, s[:i], s[i+1:])
		}
	}
	var uniq []string
	for _, s := range sortedSet(strs) {
		if s != "" {
			uniq = append(uniq, s)
		}
	}
	strs = uniq
	trans := g.P(50)
	policies := g.P(85)
	bind, ids := g.P(50), g.P(30)
	certs := []*x509.Certificate{nil}
	names := []string{"none"}
	cns := append([]string{"client", "client:a"}, strs...)
	for k := 0; k < 4; k++ {
		s := CertSpec{CN: Pick(g, cns), Issuer: Pick(g, append([]string{"ca", "ca:client"}, strs...)), NotBefore: time.Now().Add(-time.Hour)}
		if g.P(25) {
			s.Issuer = s.CN // as if issued by itself
		}
		for m := g.Range(1, 2); m > 0; m-- { // often several of the same names
			certs = append(certs, s.Make())
			names = append(names, fmt.Sprintf("%d(issuer %q CN %q)", len(certs)-1, s.Issuer, s.CN))
		}
	}
	var rts, ats []string
	roleSets := [][]string{{"r1"}, {"r2"}, {"r1", "r2"}, {"r3"}}
	now := time.Now().Unix()
	for k := 0; k < 3; k++ {
		rt := RT{Domain: dom, Roles: Pick(g, roleSets), Principal: "p" + strings.ReplaceAll(weird(), ";", ""), T: now - 10, E: now + 40*86400, KeyID: "zts1"}
		rts = append(rts, rt.Sign(w.ZTSKeys["zts1"]))
		claims := ATClaims(dom, Pick(g, roleSets), "s"+weird(), Pick(g, cns), now-10, now+40*86400)
		if bind && g.P(80) {
			if c := Pick(g, certs); c != nil {
				claims["cnf"] = map[string]any{"x5t#S256": thumb(c)}
			}
		}
		ats = append(ats, AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, claims))
	}
	// tokens extended by text, which are not valid
	rts = append(rts, rts[0]+":"+strs[0], rts[0]+`\`, "")
	ats = append(ats, ats[0]+":"+strs[0], ats[0]+":ca:client", "")
	queries := append([]string{"", "", "q=1", "q=1#", "q=1#bad", "q=1&q=1", "q=1&p=2", "p=2&q=1", " q=1", "q=1 ", "bad", "q=1:a", "%zz", ";", "&", "q=1&", "q=%31", "Q=1", "=", "%"}, strs...)
	c := &c09World{w: w}
	var asss []Ass
	for k := 0; k < nq; k++ {
		q := question{kind: Pick(g, []string{"rt", "at", "req rt", "req at", "req both"}), rt: Pick(g, rts[:3]), at: Pick(g, ats[:3]), act: Pick(g, strs), res: Pick(g, strs), verify: g.P(15)}
		if g.P(25) {
			q.act = Pick(g, []string{"GET", "get", "POST", "Get"})
		}
		if g.P(10) {
			q.res += ":" + Pick(g, strs)
		}
		if g.P(10) {
			q.rt, q.at = Pick(g, rts), Pick(g, ats)
		}
		if g.P(6) {
			q.rt, q.at = q.at, q.rt // a token of the other kind
		}
		if strings.HasPrefix(q.kind, "req") {
			q.query = Pick(g, queries)
		}
		i := g.N(len(certs))
		q.cert, q.certName = certs[i], names[i]
		c.qs = append(c.qs, q)
		// variants of the question which are close to it
		for g.P(55) {
			v := c.qs[len(c.qs)-1]
			switch g.N(10) {
			case 0:
				if i := strings.IndexByte(v.res, ':'); i > 0 && i < len(v.res)-1 {
					v.act, v.res = v.act+":"+v.res[:i], v.res[i+1:]
				} else if i := strings.IndexByte(v.act, ':'); i > 0 && i < len(v.act)-1 {
					v.act, v.res = v.act[:i], v.act[i+1:]+":"+v.res
				}
			case 1:
				if v.query != "" {
					v.res, v.query = v.res+":"+v.query, ""
				} else {
					v.query = Pick(g, queries)
				}
			case 2:
				i := g.N(len(certs))
				v.cert, v.certName = certs[i], names[i]
			case 3:
				v.kind = Pick(g, []string{"rt", "at", "req rt", "req at", "req both"})
			case 4:
				v.rt, v.at = v.at, v.rt
			case 5:
				v.act, v.res = v.res, v.act
			case 6:
				v.act, v.res, v.query = Pick(g, []string{v.act, strings.ToUpper(v.act)}), Pick(g, []string{v.res, strings.ToUpper(v.res)}), Pick(g, []string{v.query, strings.ToUpper(v.query)})
			case 7:
				v.query = Pick(g, queries)
			case 8, 9: // another split of the same text, for a key which escapes its parts badly
				enc, dec := func(s string) string { return s }, func(s string) string { return s }
				if g.P(60) {
					enc = func(s string) string { return strings.ReplaceAll(s, ":", `\:`) }
					dec = func(s string) string { return strings.ReplaceAll(s, `\:`, ":") }
				}
				t := enc(v.act) + ":" + enc(v.res)
				if v.query != "" {
					t += ":" + enc(v.query)
				}
				var at []int
				for i := range t {
					if t[i] == ':' {
						at = append(at, i)
					}
				}
				if at = Shuffle(g, at)[:min(len(at), g.Range(1, 2))]; len(at) == 1 {
					v.act, v.res, v.query = dec(t[:at[0]]), dec(t[at[0]+1:]), ""
				} else {
					i, j := min(at[0], at[1]), max(at[0], at[1])
					v.act, v.res, v.query = dec(t[:i]), dec(t[i+1:j]), dec(t[j+1:])
				}
				if v.query != "" && !strings.HasPrefix(v.kind, "req") {
					v.kind = "req " + v.kind
				}
				r.Count("other splits of the same text", 1)
			}
			if !strings.HasPrefix(v.kind, "req") {
				v.query = ""
			}
			c.qs = append(c.qs, v)
		}
		res := q.res
		if trans {
			_, res, _ = queryTranslator{}.Translate(dom, q.act, q.res, q.query)
		}
		if g.P(75) {
			for _, role := range Shuffle(g, []string{"r1", "r2", "r3"})[:g.Range(1, 3)] {
				asss = append(asss, Ass{"dom:role." + role, q.act, "dom:" + res, Pick(g, []string{"allow", "allow", "allow", "allow", "allow", "deny"})})
			}
		}
	}
	w.ServePolicy(w.Doc(dom, time.Now().Add(4000*time.Hour), asss))
	var idm map[string][]string
	if ids {
		idm = map[string][]string{}
		for _, cn := range cns {
			if g.P(70) {
				idm[cn] = []string{Pick(g, cns), Pick(g, cns)}
			}
		}
	}
	opts := []authorizerd.Option{authorizerd.WithCacheExp(24 * time.Hour), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, bind, "1h", "1h", ids, idm))}
	if trans {
		opts = append(opts, authorizerd.WithTranslator(queryTranslator{}))
	}
	if !policies {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	c.cfg = fmt.Sprintf("translator %v policies %v bound %v client IDs %v", trans, policies, bind, idm)
	c.fresh = func() authorizerd.Authorizerd {
		az := w.Authz([]string{dom}, opts...)
		if err := az.Init(ctx); err != nil {
			panic("verif: initialization failed: " + err.Error())
		}
		return az
	}
	return c
}

func checkC09(r *Run) {
	pools()
	perturbYield(r)
	r.Bubbles("history", r.Tier(250, 3000), func(t *testing.T, i int, g *Rng) {
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		c := newC09(r, g, ctx, 12)
		az := c.fresh()
		if g.P(50) {
			ech := az.Start(ctx)
			go func() {
				for range ech {
				}
			}()
		}
		first := map[int]Ans{}
		var hist []string
		for k := 0; k < 70; k++ {
			n := g.N(len(c.qs))
			q := c.qs[n]
			want, ok := first[n]
			if !ok {
				want = q.ask(ctx, c.fresh())
				first[n] = want
				r.Count("fresh answers", 1)
			}
			got := q.ask(ctx, az)
			r.Count(map[bool]string{true: "granted", false: "rejected"}[want.OK], 1)
			r.Eval(true, c.cfg, q, len(hist))
			if !got.Eq(want) {
				r.Violate(i, "answer", "(%s) %v: answered %v, the first request is answered %v; requests before:\n%s", c.cfg, q, got, want, strings.Join(hist, "\n"))
				return
			}
			hist = append(hist, fmt.Sprintf("%v -> %v", q, got.OK))
			if g.P(5) {
				time.Sleep(g.Dur(0, 30*time.Second))
			}
		}
	})
	// a question granted, then others which differ from it in one part only, all decided by the model
	r.Bubbles("pairs", r.Tier(400, 4000), func(t *testing.T, i int, g *Rng) {
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		w := NewWorld()
		text := func() string {
			s := ""
			for n := g.Range(1, 4); n > 0; n-- {
				s += Pick(g, []string{"a", "b", "1", ":", `\`, "#", "/", "|", ".", ";", "=", "&", "%", " ", "é", ","})
			}
			return s
		}
		trans := g.P(75)
		act, res, query := Pick(g, []string{"GET", "get", "POST", "read", text(), text()}), Pick(g, []string{"/path", "res", text(), text()}), ""
		if g.P(80) {
			query = strings.NewReplacer("%", "%25", " ", "+").Replace("k=" + text())
		}
		var certs []*x509.Certificate
		cn, is := Pick(g, []string{"client", "client:a", "x"}), Pick(g, []string{"ca", "client", "a:ca"})
		if g.P(40) {
			is = cn
		}
		for _, s := range []CertSpec{{CN: cn, Issuer: is}, {CN: cn, Issuer: is}, {CN: cn, Issuer: is}, {CN: "other", Issuer: is}, {CN: cn, Issuer: "other"}, {CN: is, Issuer: cn}} {
			s.NotBefore = time.Now().Add(-time.Hour)
			certs = append(certs, s.Make())
		}
		certs = append(certs, nil)
		now := time.Now().Unix()
		tok := func(role string) (rt, at string) {
			c := ATClaims("dom", []string{role}, "sub", "client", now-10, now+40*86400)
			c["cnf"] = map[string]any{"x5t#S256": thumb(certs[0])}
			return RT{Domain: "dom", Roles: []string{role}, Principal: "p", T: now - 10, E: now + 40*86400, KeyID: "zts1"}.Sign(w.ZTSKeys["zts1"]), AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, c)
		}
		rt, at := tok("r1")
		rt2, at2 := tok("r2")
		kind := Pick(g, []string{"rt", "at", "req rt", "req at", "req rt", "req at"})
		if !strings.HasPrefix(kind, "req") {
			query = ""
		}
		base := question{kind: kind, rt: rt, at: at, act: act, res: res, query: query, cert: certs[0], certName: "0"}
		tr := func(q question) string {
			if !trans {
				return q.res
			}
			_, s, _ := queryTranslator{}.Translate("dom", q.act, q.res, q.query)
			return s
		}
		asss := []Ass{{"dom:role.r1", base.act, "dom:" + tr(base), "allow"}}
		w.ServePolicy(w.Doc("dom", time.Now().Add(4000*time.Hour), asss))
		opts := []authorizerd.Option{authorizerd.WithCacheExp(24 * time.Hour), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, true, "0", "0", false, nil))}
		if trans {
			opts = append(opts, authorizerd.WithTranslator(queryTranslator{}))
		}
		az := w.Authz([]string{"dom"}, opts...)
		if err := az.Init(ctx); err != nil {
			panic("verif: initialization failed: " + err.Error())
		}
		want := func(q question) bool {
			if q.rt == rt2 && strings.HasSuffix(q.kind, "rt") || q.at == at2 && strings.HasSuffix(q.kind, "at") {
				return false
			}
			if strings.HasSuffix(q.kind, "at") && q.cert != certs[0] {
				return false
			}
			d, _ := decide(asss, "dom", []string{"r1"}, q.act, tr(q))
			return d == Allow
		}
		edit := func(s string) string {
			switch g.N(7) {
			case 0:
				return s + text()
			case 1:
				return text() + s
			case 2:
				k := g.N(len(s) + 1)
				return s[:k] + text() + s[k:]
			case 3:
				return s[:g.N(len(s)+1)]
			case 4:
				return s[g.N(len(s)+1):]
			case 5:
				if s != "" {
					b := []byte(s)
					b[g.N(len(b))] = "ab1:#/|"[g.N(7)]
					return string(b)
				}
			}
			return text()
		}
		for k := 0; k < 30; k++ {
			if a := base.ask(ctx, az); !a.OK {
				r.Violate(i, "pairs", "translator %v: %v is rejected, after %d others", trans, base, k)
				return
			}
			v := base
			part := ""
			switch n := g.N(6); {
			case n == 0:
				v.act, part = edit(v.act), "act"
			case n == 1:
				v.res, part = edit(v.res), "res"
			case n == 2 && strings.HasSuffix(v.kind, "at"):
				m := g.N(len(certs))
				v.cert, v.certName, part = certs[m], fmt.Sprint(m), "certificate"
			case n == 3 && g.P(40):
				v.rt, v.at, part = rt2, at2, "token"
			case strings.HasPrefix(v.kind, "req"):
				v.query, part = strings.NewReplacer("%", "%25", " ", "+").Replace(edit(v.query)), "query"
				if g.P(15) {
					v.query = ""
				}
			default:
				v.res, part = edit(v.res), "res"
			}
			if v.act == "" || v.res == "" {
				continue
			}
			ok := want(v)
			r.Eval(true, "pairs", base, v, trans)
			r.Count(fmt.Sprintf("pairs differing in the %s: %v", part, ok), 1)
			if a := v.ask(ctx, az); a.OK != ok {
				r.Violate(i, "pairs", "translator %v: after %v was granted, %v is answered %v, expected %v", trans, base, v, a.OK, ok)
				return
			}
		}
	})
	// certificates of the same names, of which a short digest might tell few apart
	var alike []*x509.Certificate
	for k := 0; k < 60; k++ {
		alike = append(alike, CertSpec{CN: "client", Issuer: "ca", NotBefore: time.Now().Add(-time.Hour)}.Make())
	}
	r.Bubbles("alike", r.Tier(20, 100), func(t *testing.T, i int, g *Rng) {
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		w := NewWorld()
		w.ServePolicy(w.Doc("dom", time.Now().Add(4000*time.Hour), []Ass{{"dom:role.r1", "act", "dom:res", "allow"}}))
		az := w.Authz([]string{"dom"}, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, true, "0", "0", false, nil)))
		if err := az.Init(ctx); err != nil {
			panic("verif: initialization failed: " + err.Error())
		}
		now := time.Now().Unix()
		for _, own := range Shuffle(g, append([]*x509.Certificate{}, alike...))[:6] {
			claims := ATClaims("dom", []string{"r1"}, "sub", "other", now-10, now+86400)
			claims["cnf"] = map[string]any{"x5t#S256": thumb(own)}
			tok := AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, claims)
			for k := -1; k < len(alike); k++ {
				c := own
				if k >= 0 {
					c = alike[k]
				}
				_, err := az.AuthorizeAccessToken(ctx, tok, "act", "res", c)
				r.Count("certificates alike", 1)
				if (err == nil) != (c == own) {
					r.Violate(i, "alike", "a token bound to a certificate, asked with certificate %d having the same names after it was granted with its own: %v", k, err)
					return
				}
			}
		}
	})
	pt.Disable()
	r.casesOn("concurrent", r.Tier(40, 400), 2, func(t *testing.T, i int, g *Rng) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		c := newC09(r, g, ctx, 10)
		want := make([]Ans, len(c.qs))
		for k, q := range c.qs {
			want[k] = q.ask(ctx, c.fresh())
		}
		perturbOn(g)
		for round := 0; round < 3; round++ {
			az := c.fresh()
			var wg sync.WaitGroup
			for j := 0; j < 8; j++ {
				lg := NewRng(g.U64())
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 60; k++ {
						n := lg.N(len(c.qs))
						got := c.qs[n].ask(ctx, az)
						if !got.Eq(want[n]) {
							r.Violate(i, "concurrent answer", "(%s) %v: answered %v, the first request is answered %v", c.cfg, c.qs[n], got, want[n])
							return
						}
					}
					r.Count("concurrent answers", 60)
				}()
			}
			wg.Wait()
			r.Eval(true, "concurrent", c.cfg, i, round)
		}
	})
	ptReport(r)
	for _, p := range []string{"act", "res", "certificate", "token", "query"} {
		r.Need("pairs differing in the "+p+": false", 100)
	}
	r.Need("granted", 2000)
	r.Need("rejected", 2000)
	r.Need("concurrent answers", 5000)
}
