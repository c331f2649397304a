package vh

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

func init() { checks["C26"] = checkC26 }

// spoil26 makes one rule set invalid, at any place, and says how.
func spoil26(g *Rng, m map[string][]authorizerd.Rule) (map[string][]authorizerd.Rule, string) {
	way := g.N(12)
	switch way {
	case 0:
		return nil, "no rules at all"
	case 1:
		m[""] = m[Pick(g, sortedKeys(m))]
		if m[""] == nil {
			m[""] = []authorizerd.Rule{}
		}
		return m, "empty domain"
	case 2:
		d := Pick(g, append(sortedKeys(m), "dom.new"))
		m[d] = nil
		return m, "domain without rules " + d
	}
	d := Pick(g, sortedKeys(m))
	if len(m[d]) == 0 {
		m[d] = append(m[d], authorizerd.Rule{Method: "GET", Path: "/a", Action: "x", Resource: "y"})
	}
	at := g.N(len(m[d]))
	x := &m[d][at]
	path, query, has := strings.Cut(x.Path, "?")
	join := func() {
		x.Path = path
		if has {
			x.Path += "?" + query
		}
	}
	seg := func(s string) { // one more segment, not before the first slash
		l := strings.Split(path, "/")
		k := 1 + g.N(len(l))
		l = append(l[:k:k], append([]string{s}, l[k:]...)...)
		path = strings.Join(l, "/")
		join()
	}
	param := func(k, v string) {
		p := url.QueryEscape(k) + "=" + Pick(g, []string{v, url.QueryEscape(v)})
		switch {
		case !has:
			query, has = p, true
		case g.P(50):
			query = p + "&" + query
		default:
			query += "&" + p
		}
		if path == "" {
			path = "/"
		}
		join()
	}
	if way >= 7 && g.P(40) { // a long rule
		for n := g.N(12); n > 0; n-- {
			seg(Pick(g, []string{"s", "a.b", fmt.Sprintf("{seg%d}", n), fmt.Sprintf("x%d", n)}))
		}
		for n := g.N(8); n > 0; n-- {
			param(fmt.Sprintf("q%d", n), Pick(g, []string{"", "1", fmt.Sprintf("{par%d}", n)}))
		}
	}
	dup := Pick(g, []string{"{dup}", "{D}", "{a b}", "{日本}", "{" + strings.Repeat("long", 20) + "}", "{1}", "{{z}}", "{.*}"})
	what := ""
	switch way {
	case 3:
		x.Method, what = "", "no method"
	case 4:
		x.Action, what = "", "no action"
	case 5:
		x.Resource, what = "", "no resource"
	case 6:
		what = "path not from /"
		x.Path = Pick(g, []string{"a/b", " /a", "{x}/a", "?a=b", "*", "a" + x.Path, "%2Fa", "\\a", "https://h/a"})
	case 7:
		what = "empty placeholder in the path"
		seg("{}")
	case 8:
		what = "empty placeholder in the query"
		param("zz", "{}")
	case 9:
		what = "the same placeholder twice"
		switch g.N(3) {
		case 0:
			seg(dup)
			seg(dup)
		case 1:
			seg(dup)
			param("zz", dup)
		case 2:
			param("zz", dup)
			param("yy", dup)
		}
	case 10:
		what = "malformed query"
		param("zz", "1")
		query += Pick(g, []string{"&%", "&a=%zz", "&a=%2", ";b=1", "&x;y=1"})
		join()
	case 11:
		what = "a query parameter twice"
		v := Pick(g, []string{"1", "{first}", ""})
		param("zz", v)
		param("zz", Pick(g, []string{"2", "{second}", v, ""}))
	}
	return m, fmt.Sprintf("%s, rule %d of %s: %+v", what, at, d, *x)
}

func checkC26(r *Run) {
	r.Cases("rules", r.Tier(12000, 200000), func(t *testing.T, i int, g *Rng) {
		tg := &transGen{g: g}
		tg.make([]string{"dom.a", "dom.b", "dom.c"}[:g.Range(1, 3)])
		if mr := tg.build(r, i); mr == nil {
			return
		}
		r.Count("valid rule sets", 1)
		m := map[string][]authorizerd.Rule{}
		for d, l := range tg.rules {
			o := []authorizerd.Rule{}
			for _, r := range l {
				o = append(o, authorizerd.Rule{Method: r.Method, Path: r.Path, Action: r.Action, Resource: r.Resource})
			}
			m[d] = o
		}
		bad, what := spoil26(g, m)
		mr, err := authorizerd.NewMappingRules(bad)
		r.Eval(true, what, fmt.Sprint(bad))
		kind, _, _ := strings.Cut(what, ",")
		r.Count("invalid rule sets: "+strings.TrimSuffix(strings.TrimSuffix(kind, " dom.new"), " dom.a"), 1)
		if err == nil {
			r.Violate(i, "accepted", "rules accepted though invalid: %s; %+v", what, bad)
		}
		if err != nil && mr != nil {
			r.Violate(i, "both", "rules and error %v returned: %s", err, what)
		}
	})

	badDur := []string{"1", "1hour", "abc", "-", "1h ", " 1h", "1h30", "h", "1 h", "1d", "９h", "1.5.2h", "--1h", "P1D", "99999999999999h", "1h,5m", "0x1h", "NaN"}
	notPos := []string{"0", "0s", "-1h", "-1ns", "-0s", "0h0m"}
	okDur := []string{"", "1h", "90s", "1h30m", "1.5h", "1us", "2540400h"}
	okDelay := append([]string{"0s", "0"}, okDur...)
	type durOpt struct {
		name   string
		part   string
		period bool
		set    func(string) authorizerd.Option
	}
	opts := []durOpt{
		{"pubkey refresh", "pubkeyd", true, authorizerd.WithPubkeyRefreshPeriod},
		{"pubkey ETag expiry", "pubkeyd", false, authorizerd.WithPubkeyETagExpiry},
		{"pubkey ETag purge", "pubkeyd", true, authorizerd.WithPubkeyETagPurgePeriod},
		{"pubkey retry delay", "pubkeyd", false, authorizerd.WithPubkeyRetryDelay},
		{"policy refresh", "policyd", true, authorizerd.WithPolicyRefreshPeriod},
		{"policy purge", "policyd", true, authorizerd.WithPolicyPurgePeriod},
		{"policy expiry margin", "policyd", false, authorizerd.WithPolicyExpiryMargin},
		{"policy retry delay", "policyd", false, authorizerd.WithPolicyRetryDelay},
		{"jwk refresh", "jwkd", true, authorizerd.WithJwkRefreshPeriod},
		{"jwk retry delay", "jwkd", false, authorizerd.WithJwkRetryDelay},
	}
	badURL := []string{"ftp://athenz.test/zts/v1", "ws://athenz.test", "file:///etc/passwd", "h2c://athenz.test", "httpx://athenz.test", "a+b://athenz.test"}
	badKeyURL := []string{"ftp://keys.test/k", "keys.test/k", "/k", "", "://k", "file:///k", "keys.test:443/k", "ws://keys.test/k", "http//keys.test", "https//keys.test/k", "data:text/plain,x", "mailto:a@b.test", " https://keys.test/k", "https://keys.test/\x7f"}
	at := func(on, bind bool, back, off string) authorizerd.Option {
		return authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(on, bind, back, off, false, nil))
	}
	r.Cases("options", r.Tier(12000, 200000), func(t *testing.T, i int, g *Rng) {
		on := map[string]bool{"pubkeyd": g.P(80), "policyd": g.P(80), "jwkd": g.P(80)}
		groups, said := map[string][]authorizerd.Option{}, map[string][]string{}
		add := func(name string, value any, o authorizerd.Option) {
			groups[name] = append(groups[name], o)
			said[name] = append(said[name], fmt.Sprintf("%s %q", name, fmt.Sprint(value)))
		}
		for _, p := range sortedKeys(on) {
			o := map[string][2]authorizerd.Option{"pubkeyd": {authorizerd.WithDisablePubkeyd(), authorizerd.WithEnablePubkeyd()}, "policyd": {authorizerd.WithDisablePolicyd(), authorizerd.WithEnablePolicyd()}, "jwkd": {authorizerd.WithDisableJwkd(), authorizerd.WithEnableJwkd()}}[p]
			if !on[p] || g.P(30) {
				add(p, on[p], o[b2i(on[p])])
			}
		}
		addr := Pick(g, []string{"athenz.test", "https://athenz.test/zts/v1", "http://athenz.test:4443/zts/v1", "athenz.test/"})
		var urls []string
		for n := g.N(4); n > 0; n-- {
			urls = append(urls, fmt.Sprintf("%s://keys%d.test/k", Pick(g, []string{"http", "https"}), n))
		}
		durs := map[string]string{}
		for _, o := range opts {
			if g.P(30) {
				durs[o.name] = Pick(g, map[bool][]string{true: okDur, false: okDelay}[o.period])
			}
		}
		cache := time.Duration(-1)
		if g.P(40) {
			cache = Pick(g, []time.Duration{time.Second, time.Minute, 100 * time.Hour})
		}
		creds := g.Range(1, 7)
		back, off := Pick(g, okDelay), Pick(g, okDelay)

		what := ""
		if g.P(60) { // one thing wrong
			switch g.N(6) {
			case 0, 1:
				o := Pick(g, opts)
				if !on[o.part] {
					return // what a disabled part would say is left open
				}
				l := badDur
				if o.period {
					l = append(append([]string{}, l...), notPos...)
				}
				durs[o.name] = Pick(g, l)
				what = "bad " + o.name + " " + durs[o.name]
			case 2:
				addr = Pick(g, badURL)
				what = "bad URL " + addr
			case 3:
				if !on["jwkd"] {
					return
				}
				k := g.N(len(urls) + 1)
				urls = append(urls[:k:k], append([]string{Pick(g, badKeyURL)}, urls[k:]...)...)
				what = fmt.Sprintf("bad key set URL %q", urls[k])
			case 4:
				creds = 0
				what = "no credential"
			case 5:
				creds |= 1
				b := Pick(g, badDur)
				if g.P(50) {
					back, what = b, "bad backdate "+b
				} else {
					off, what = b, "bad offset "+b
				}
			}
		}
		add("URL", addr, authorizerd.WithAthenzURL(addr))
		if urls != nil {
			add("key set URLs", fmt.Sprintf("%q", urls), authorizerd.WithJwkURLs(urls))
		}
		for _, o := range opts {
			if v, ok := durs[o.name]; ok {
				if g.P(30) {
					add(o.name, "7h", o.set("7h"))
				}
				add(o.name, v, o.set(v))
			}
		}
		if cache >= 0 {
			add("cache", cache, authorizerd.WithCacheExp(cache))
		}
		bind := g.P(50)
		add("access token", fmt.Sprint(creds&1 > 0, " ", bind, " ", back, " ", off), at(creds&1 > 0, bind, back, off))
		for k, o := range [][2]authorizerd.Option{{authorizerd.WithDisableRoleToken(), authorizerd.WithEnableRoleToken()}, {authorizerd.WithDisableRoleCert(), authorizerd.WithEnableRoleCert()}} {
			v := creds >> (k + 1) & 1
			add([]string{"role token", "role certificate"}[k], v == 1, o[v])
		}
		if g.P(30) {
			add("client", "", authorizerd.WithHTTPClient(&http.Client{}))
		}
		// the order of different options is of no importance
		var list []authorizerd.Option
		var desc []string
		for _, n := range Shuffle(g, sortedKeys(groups)) {
			list, desc = append(list, groups[n]...), append(desc, said[n]...)
		}
		az, err := authorizerd.New(list...)
		r.Eval(true, strings.Join(desc, ", "))
		if what == "" {
			r.Count("valid configurations", 1)
			if err != nil || az == nil {
				r.Violate(i, "rejected", "a valid configuration is rejected: %v: %s", err, strings.Join(desc, ", "))
			}
			return
		}
		r.Count("invalid configurations", 1)
		if err == nil {
			r.Violate(i, "accepted", "an invalid configuration is accepted: %s: %s", what, strings.Join(desc, ", "))
		} else if az != nil {
			r.Violate(i, "both", "an authorizer and the error %v returned: %s", err, what)
		}
	})

	// the same of the parts on their own
	r.Cases("parts", 1, func(t *testing.T, i int, g *Rng) {
		parts := map[string]func(string) error{
			"pubkey refresh":       func(s string) error { _, err := pubkey.New(pubkey.WithRefreshPeriod(s)); return err },
			"pubkey ETag expiry":   func(s string) error { _, err := pubkey.New(pubkey.WithETagExpiry(s)); return err },
			"pubkey ETag purge":    func(s string) error { _, err := pubkey.New(pubkey.WithETagPurgePeriod(s)); return err },
			"pubkey retry delay":   func(s string) error { _, err := pubkey.New(pubkey.WithRetryDelay(s)); return err },
			"policy refresh":       func(s string) error { _, err := policy.New(policy.WithRefreshPeriod(s)); return err },
			"policy purge":         func(s string) error { _, err := policy.New(policy.WithPurgePeriod(s)); return err },
			"policy expiry margin": func(s string) error { _, err := policy.New(policy.WithExpiryMargin(s)); return err },
			"policy retry delay":   func(s string) error { _, err := policy.New(policy.WithRetryDelay(s)); return err },
			"jwk refresh":          func(s string) error { _, err := jwk.New(jwk.WithRefreshPeriod(s)); return err },
			"jwk retry delay":      func(s string) error { _, err := jwk.New(jwk.WithRetryDelay(s)); return err },
			"backdate":             func(s string) error { _, err := access.New(access.WithClientCertificateGoBackSeconds(s)); return err },
			"offset":               func(s string) error { _, err := access.New(access.WithClientCertificateOffsetSeconds(s)); return err },
			"pubkey URL":           func(s string) error { _, err := pubkey.New(pubkey.WithAthenzURL(s)); return err },
			"policy URL":           func(s string) error { _, err := policy.New(policy.WithAthenzURL(s)); return err },
			"jwk URL":              func(s string) error { _, err := jwk.New(jwk.WithAthenzJwksURL(s)); return err },
			"jwk key set URL":      func(s string) error { _, err := jwk.New(jwk.WithURLs([]string{"https://a.test/k", s})); return err },
		}
		for _, name := range sortedKeys(parts) {
			good, bad := okDelay, badDur
			switch {
			case name == "jwk key set URL":
				good, bad = []string{"http://k.test/a", "https://k.test:8080/a?b=c"}, badKeyURL
			case strings.HasSuffix(name, "URL"):
				good, bad = []string{"athenz.test", "https://athenz.test/zts/v1", "http://athenz.test"}, badURL
			case strings.HasSuffix(name, "refresh"), strings.HasSuffix(name, "purge"):
				good, bad = okDur, append(append([]string{}, badDur...), notPos...)
			}
			for _, s := range good {
				r.Eval(true, name, s)
				if err := parts[name](s); err != nil {
					r.Violate(i, "rejected", "%s %q is rejected: %v", name, s, err)
				}
			}
			for _, s := range bad {
				r.Eval(true, name, s)
				if err := parts[name](s); err == nil {
					r.Violate(i, "accepted", "%s %q is accepted", name, s)
				}
			}
		}
	})
	r.Need("valid rule sets", 5000)
	r.Need("valid configurations", 2000)
	r.Need("invalid configurations", 2000)
	r.Need("invalid rule sets: the same placeholder twice", 200)
	r.Need("invalid rule sets: malformed query", 200)
}
