package vh

import (
	"context"
	"fmt"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C12"] = checkC12 }

type tRule struct {
	Method, Path, Action, Resource string
	segs                           []string
	query                          map[string]string
}

func isHole(s string) bool {
	return len(s) > 2 && strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")
}

// translate is the specification. mayErr: an error is tolerated, mustErr: required.
func translate(rules []tRule, method, path, query string) (act, res string, mayErr, mustErr bool) {
	q, qerr := url.ParseQuery(query)
	segs := strings.Split(path, "/")
	for _, r := range rules {
		if string(lowerRunes(r.Method)) != string(lowerRunes(method)) || len(segs) != len(r.segs) {
			continue
		}
		vals := map[string]string{}
		ok := true
		for i, s := range r.segs {
			if isHole(s) {
				vals[s] = segs[i]
			} else if s != segs[i] {
				ok = false
			}
		}
		if qerr != nil {
			mayErr = true
			if ok {
				return "", "", true, true
			}
			continue
		}
		if !ok || len(q) != len(r.query) {
			continue
		}
		for k, v := range r.query {
			have, found := q[k]
			if !found || len(have) != 1 {
				ok = false
			} else if isHole(v) {
				vals[v] = have[0]
			} else if v != have[0] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		// one pass over the template
		var out strings.Builder
		t := r.Resource
	scan:
		for len(t) > 0 {
			for h, v := range vals {
				if strings.HasPrefix(t, h) {
					out.WriteString(v)
					t = t[len(h):]
					continue scan
				}
			}
			out.WriteByte(t[0])
			t = t[1:]
		}
		return r.Action, out.String(), mayErr, false
	}
	return method, path, mayErr, false
}

type transGen struct {
	g     *Rng
	rules map[string][]tRule
}

func (tg *transGen) make(domains []string) {
	g := tg.g
	tg.rules = map[string][]tRule{}
	for _, d := range domains {
		n := g.Range(0, 7)
		l := []tRule{}
		for k := 0; k < n; k++ {
			r := tRule{Method: Pick(g, []string{"GET", "get", "POST", "Put", "GET", "get", "*", "G.T", "ANY"}), Action: Pick(g, []string{"read", "write", "act{a}", fmt.Sprint("do", k)}), query: map[string]string{}}
			holes := Shuffle(g, []string{"{a}", "{b}", "{c}", "{ab}", "{a1}", "{long-name}"})
			used := []string{}
			hole := func() string {
				h := holes[0]
				holes = holes[1:]
				used = append(used, h)
				return h
			}
			r.segs = []string{""}
			if !g.P(5) {
				for n := g.Range(1, 4); n > 0; n-- {
					if g.P(45) && len(holes) > 1 {
						r.segs = append(r.segs, hole())
					} else {
						r.segs = append(r.segs, Pick(g, []string{"x", "y", "", "X", "x.y", "{", "}", "a}", "{a", "x{a}", "%2F", "AbC", "v%20w", "a+b", "%7Bz%7D"}))
					}
				}
			}
			r.Path = strings.Join(r.segs, "/")
			if g.P(55) && r.Path != "" {
				var qs []string
				for n := g.Range(1, 3); n > 0; n-- {
					k := Pick(g, []string{"p", "q", "r s", "{a}"})
					if _, dup := r.query[k]; dup {
						continue
					}
					v := Pick(g, []string{"1", "2", "", "a b", "x&y=z", "{a", "On", "%41", "v+1"})
					if g.P(60) && len(holes) > 1 {
						v = hole()
					}
					r.query[k] = v
					qs = append(qs, url.QueryEscape(k)+"="+url.QueryEscape(v))
				}
				r.Path += "?" + strings.Join(qs, "&")
			}
			r.Resource = ""
			for n := g.Range(1, 5); n > 0; n-- {
				r.Resource += Pick(g, append(append([]string{"res", ".", "/", "{zz}", "{a}", "{b}", "{", "}", "*"}, used...), used...))
			}
			l = append(l, r)
		}
		tg.rules[d] = l
	}
}

func (tg *transGen) build(r *Run, n int) *authorizerd.MappingRules {
	m := map[string][]authorizerd.Rule{}
	for d, l := range tg.rules {
		o := []authorizerd.Rule{}
		for _, r := range l {
			o = append(o, authorizerd.Rule{Method: r.Method, Path: r.Path, Action: r.Action, Resource: r.Resource})
		}
		m[d] = o
	}
	mr, err := authorizerd.NewMappingRules(m)
	if err != nil {
		r.Violate(n, "rules", "rules %+v rejected: %v", m, err)
		return nil
	}
	return mr
}

// near12 is another text easily taken for s.
func near12(g *Rng, s string) string {
	un := func(f func(string) (string, error)) string {
		if u, err := f(s); err == nil {
			return u
		}
		return s + "x"
	}
	switch g.N(9) {
	case 0:
		return upper(s)
	case 1:
		return string(lowerRunes(s))
	case 2:
		return un(url.PathUnescape)
	case 3:
		return un(url.QueryUnescape)
	case 4:
		return url.PathEscape(s)
	case 5:
		return url.QueryEscape(s)
	case 6:
		return Pick(g, []string{" " + s, s + " ", s + ".", s + ";v=1", "./" + s, s + "\x00"})
	case 7:
		return strings.TrimSpace(s) + s
	}
	return s + "x"
}

func (tg *transGen) request(domain string) (method, path, query string) {
	g := tg.g
	method = Pick(g, []string{"GET", "get", "POST", "PUT", "put", "DELETE", "GOT", "*"})
	txt := func() string {
		return Pick(g, []string{"x", "y", "1", "", "{a}", "{b}", "{ab}", "{c}{a}", "{long-name}", "{zz}", "}", "v w", "é", "%2F", "a&b=c", "$1", "\\1", "x.y", "{", "X"})
	}
	l := tg.rules[domain]
	if len(l) == 0 || g.P(12) {
		for n := g.Range(0, 4); n > 0; n-- {
			path += "/" + txt()
		}
		if g.P(50) {
			query = "p=" + url.QueryEscape(txt())
		}
		return
	}
	r := Pick(g, l)
	if !g.P(10) {
		method = r.Method
		if g.P(30) {
			method = upper(method)
		}
	}
	segs := append([]string{}, r.segs...)
	for i, s := range segs {
		if isHole(s) || (i > 0 && g.P(4)) {
			segs[i] = txt()
		} else if i > 0 && g.P(6) {
			segs[i] = near12(g, s)
		}
	}
	if g.P(4) {
		segs = append(segs, txt())
	}
	path = strings.Join(segs, "/")
	var qs []string
	for _, k := range Shuffle(g, sortedKeys(r.query)) {
		v := r.query[k]
		if isHole(v) {
			v = txt()
		} else if g.P(6) {
			v = near12(g, v)
		}
		if g.P(4) {
			continue
		}
		p := url.QueryEscape(k) + "=" + url.QueryEscape(v)
		if v == "" && g.P(30) {
			p = url.QueryEscape(k)
		}
		qs = append(qs, p)
		if g.P(4) {
			qs = append(qs, p)
		}
	}
	if g.P(5) {
		qs = append(qs, Pick(g, []string{"extra=1", "p=1", "", "q", "=", "=v"}))
	}
	query = strings.Join(qs, "&")
	if g.P(6) {
		query += Pick(g, []string{"&%zz", "%", "&a;b", "&p=%2", ";"})
	}
	return
}

func checkC12(r *Run) {
	pools()
	r.Cases("rules", r.Tier(1500, 20000), func(t *testing.T, i int, g *Rng) {
		tg := &transGen{g: g}
		tg.make([]string{"dom", "dom.sub"})
		type in struct{ d, m, p, q string }
		var ins []in
		for k := 0; k < 20; k++ {
			d := Pick(g, []string{"dom", "dom", "dom.sub", "other"})
			m, p, q := tg.request(d)
			ins = append(ins, in{d, m, p, q})
		}
		for rep := 0; rep < 4; rep++ {
			mr := tg.build(r, i)
			if mr == nil {
				return
			}
			for _, x := range ins {
				act, res, may, mustErr := translate(tg.rules[x.d], x.m, x.p, x.q)
				ga, gr, err := mr.Translate(x.d, x.m, x.p, x.q)
				if rep == 0 {
					r.Eval(len(tg.rules[x.d]) > 0, tg.rules[x.d], x)
					switch {
					case mustErr:
						r.Count("malformed query to be looked at", 1)
					case act == x.m && res == x.p:
						r.Count("passed through", 1)
					default:
						r.Count("translated", 1)
						if strings.Contains(x.p+x.q, "{") || strings.Contains(x.q, "%7B") {
							r.Count("translated with braces in the request", 1)
						}
					}
				}
				if err != nil {
					if !may {
						r.Violate(i, "error", "translation of %+v by %+v: unexpected error %v", x, tg.rules[x.d], err)
						return
					}
					continue
				}
				if mustErr {
					r.Violate(i, "malformed query", "translation of %+v by %+v: no error for the malformed query", x, tg.rules[x.d])
					return
				}
				if ga != act || gr != res {
					r.Violate(i, "translation", "translation of %+v by %+v: got %q %q, expected %q %q (repetition %d)", x, tg.rules[x.d], ga, gr, act, res, rep)
					return
				}
			}
		}
		if a, b, err := (&authorizerd.MappingRules{}).Translate("dom", "GET", "/x", "%zz"); a != "GET" || b != "/x" || err != nil {
			r.Violate(i, "translation", "without rules: %q %q %v", a, b, err)
		}
	})
	// the decision of the authorizer uses the translated action and resource
	r.Bubbles("authorizer", r.Tier(500, 5000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		tg := &transGen{g: g}
		doms := []string{"dom", "dom.sub"}
		tg.make(doms)
		prefix := Pick(g, []string{"", "/svc", "pre.", "{a}"})
		type in struct{ d, m, p, q string }
		var ins []in
		all := map[string][]Ass{}
		for k := 0; k < 25; k++ {
			d := Pick(g, doms)
			m, p, q := tg.request(d)
			if strings.ContainsAny(p+q, "\n") {
				continue
			}
			ins = append(ins, in{d, m, p, q})
			act, res, _, mustErr := translate(tg.rules[d], m, p, q)
			if !mustErr && g.P(70) {
				all[d] = append(all[d], Ass{d + ":role.r", act, d + ":" + prefix + res, Pick(g, []string{"allow", "allow", "allow", "deny"})})
			}
			if g.P(20) {
				// what must not be used: the untranslated request, no prefix
				all[d] = append(all[d], Ass{d + ":role.r", m, d + ":" + p, "allow"}, Ass{d + ":role.r", act, d + ":" + res, "deny"})
			}
		}
		for _, d := range doms {
			w.ServePolicy(w.Doc(d, time.Now().Add(4000*time.Hour), all[d]))
		}
		mr := tg.build(r, i)
		if mr == nil {
			return
		}
		az := w.Authz(doms, authorizerd.WithTranslator(mr), authorizerd.WithResourcePrefix(prefix), authorizerd.WithCacheExp(Pick(g, []time.Duration{time.Second, time.Hour})))
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		toks := map[string][2]string{}
		for _, d := range doms {
			toks[d] = [2]string{w.RoleToken(d, []string{"r"}, "user.rt"), w.AccessToken(d, []string{"r"}, "user.at", "client")}
		}
		for k := 0; k < 40; k++ {
			x := Pick(g, ins)
			if x.m == "" || x.p == "" {
				continue
			}
			act, res, may, mustErr := translate(tg.rules[x.d], x.m, x.p, x.q)
			if may && !mustErr {
				continue
			}
			q := httptest.NewRequest("GET", "https://server.test/", nil).WithContext(ctx)
			q.URL.RawQuery = x.q
			if g.P(50) {
				q.Header.Set("Athenz-Role-Auth", toks[x.d][0])
			} else {
				q.Header.Set("Authorization", "Bearer "+toks[x.d][1])
			}
			want := false
			var dec Decision
			if !mustErr {
				dec, _ = decide(all[x.d], x.d, []string{"r"}, act, prefix+res)
				want = dec == Allow
			}
			_, err := az.Authorize(q, x.m, x.p)
			r.Eval(true, "authorizer", prefix, tg.rules[x.d], all[x.d], x)
			r.Count(map[bool]string{true: "granted", false: "rejected"}[want], 1)
			if (err == nil) != want {
				r.Violate(i, "wiring", "prefix %q request %+v translated to %q %q (malformed %v): %v, expected granted %v by %v\nrules %+v\nassertions %v", prefix, x, act, res, mustErr, err, want, dec, tg.rules[x.d], all[x.d])
				return
			}
		}
	})
	r.Need("translated", 2000)
	r.Need("translated with braces in the request", 300)
	r.Need("passed through", 1000)
	r.Need("malformed query to be looked at", 300)
	r.Need("granted", 1000)
	r.Need("rejected", 1000)
}
