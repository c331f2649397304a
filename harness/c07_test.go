package vh

import (
	"context"
	"crypto"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C07"] = checkC07 }

// rawAT joins and signs any parts.
func rawAT(k *Key, alg string, header, payload []byte) string {
	p := b64(header) + "." + b64(payload)
	return p + "." + must(signMethod(alg).Sign(p, k.Priv))
}

func derOf(p crypto.PublicKey) []byte { return must(x509.MarshalPKIXPublicKey(p)) }

type atWorld struct {
	*World
	Extra map[string]map[string]*Key // key sets by URL
	URLs  []string
}

// newATWorld has overlapping key IDs in the key sets of different URLs.
func newATWorld(g *Rng) *atWorld {
	w := &atWorld{World: NewWorld(), Extra: map[string]map[string]*Key{}}
	if g.P(40) {
		w.JWKeys["rsa"] = RSA(0)
	}
	if g.P(30) {
		w.JWKeys["p384"] = P384()
	}
	if g.P(15) { // one key only
		w.JWKeys = map[string]*Key{"at1": w.JWKeys["at1"]}
	}
	w.ServeKeys()
	for i := 0; i < g.Range(0, 3); i++ {
		u := []string{"https://other.test/keys", "https://athenz.test/zts/v1/other/keys", "https://third.test/jwks?x=1&y=2"}[i]
		w.Extra[u] = map[string]*Key{"0": EC(10 + i), fmt.Sprintf("x%d", i): EC(14 + i)}
		if g.P(30) {
			w.Extra[u]["at1"] = RSA(1)
		} else if g.P(30) {
			w.Extra[u] = map[string]*Key{"0": EC(10 + i)}
		}
		w.URLs = append(w.URLs, u)
		w.SetExtra(u, jwksDoc(w.Extra[u]), 1)
	}
	return w
}

// set returns the keys of a URL, the Athenz server's for "".
func (w *atWorld) set(u string) map[string]*Key {
	if u == "" {
		return w.JWKeys
	}
	return w.Extra[u]
}

type atCase struct {
	tok  string
	want bool
	what string
	ans  Ans
	exp  int64
	from int64 // not valid before, 0 if valid now
}

// genAT makes an access token and says whether it has to be accepted at this time without any binding.
func genAT(g *Rng, w *atWorld, dom string, roles []string) atCase {
	now := time.Now().Unix()
	c := atCase{want: true, what: "valid"}
	jku := Pick(g, append([]string{"", ""}, w.URLs...))
	keys := w.set(jku)
	kid := Pick(g, sortedKeys(keys))
	key := keys[kid]
	exp := now + Pick(g, []int64{2, 10, 300, 3600, 86400, 1 << 36})
	iat := now - Pick(g, []int64{0, 1, 60, 86400, 1 << 29})
	sub, cl := Pick(g, []string{"user.a", "sports.api", "x-y_z.q"}), Pick(g, []string{"client.a", "client.b", ""})
	claims := ATClaims(dom, roles, sub, cl, iat, exp)
	h := map[string]any{"kid": kid}
	if jku != "" || g.P(10) {
		h["jku"] = jku
	}
	c.exp = exp
	c.ans = Ans{OK: true, OAuth: true, Name: sub, Domain: dom, Client: cl, Roles: roles, Issue: iat, Expiry: exp}
	switch g.N(6) {
	case 0:
		delete(claims, "iat")
		c.ans.Issue = 0
	case 1:
		claims["nbf"] = now - Pick(g, []int64{0, 1, 5, 86400})
	case 2:
		claims["nbf"] = 0
	}
	switch g.N(12) {
	case 0:
		claims["cnf"] = map[string]any{"x5t#S256": "abc"}
	case 1:
		delete(claims, "uid")
		delete(claims, "ver")
		delete(claims, "auth_time")
		delete(claims, "iss")
	case 2:
		claims["unknown"] = map[string]any{"a": []int{1, 2}}
	}
	if g.P(15) { // what counts in the header only
		k, v := Pick(g, []string{"jku", "kid", "alg"}), Pick(g, append([]string{"", "0", "none", "https://evil.test/keys"}, w.URLs...))
		if g.P(50) {
			claims[k] = v
		} else {
			claims["cnf"] = map[string]any{k: v}
		}
	}
	switch g.N(14) {
	case 0:
		claims["exp"] = now - Pick(g, []int64{2, 3, 60, 86400, now - 1, now + 5})
		c.want, c.what = false, "expired"
	case 1:
		delete(claims, "exp")
		c.want, c.what = false, "no expiry"
	case 2:
		claims["exp"] = Pick[any](g, []any{0, nil})
		c.want, c.what = false, "expiry zero"
	case 3:
		c.from = now + Pick(g, []int64{3, 60, 3600})
		claims["iat"] = c.from
		c.ans.Issue = c.from
		if exp <= c.from+10 {
			c.exp = c.from + 1000
			claims["exp"], c.ans.Expiry = c.exp, c.exp
		}
		c.want, c.what = false, "issued in the future"
	case 4:
		c.from = now + Pick(g, []int64{3, 60, 3600})
		claims["nbf"] = c.from
		if exp <= c.from+10 {
			c.exp = c.from + 1000
			claims["exp"], c.ans.Expiry = c.exp, c.exp
		}
		c.want, c.what = false, "not before in the future"
	case 5:
		if g.P(40) {
			claims["exp"] = Pick[any](g, []any{"", "9999999999", true, []int{1}})
			c.want, c.what = false, "expiry not a number"
		}
	}
	c.tok = AT(key, h, claims)
	if !c.want || g.P(35) {
		return c
	}

	full := map[string]any{"alg": key.Alg, "typ": "at+jwt"}
	for k, v := range h {
		full[k] = v
	}
	hb := func() []byte { return must(json.Marshal(full)) }
	pb := func() []byte { return must(json.Marshal(claims)) }
	parts := strings.Split(c.tok, ".")
	type op struct {
		name string
		f    func() string
	}
	resign := func() string { return rawAT(key, key.Alg, hb(), pb()) }
	var foreign []string // key IDs and URLs leading to another key of the same kind, or to none
	ops := []op{
		{"no kid", func() string { delete(full, "kid"); return resign() }},
		{"empty kid", func() string { full["kid"] = ""; return resign() }},
		{"kid not a string", func() string {
			full["kid"] = Pick[any](g, []any{1, 0, nil, true, []string{kid}, map[string]any{"kid": kid}})
			return resign()
		}},
		{"unknown kid", func() string {
			full["kid"] = Pick(g, []string{"nokey", kid + "x", " " + kid, kid + " "})
			return resign()
		}},
		{"jku not a string", func() string {
			full["jku"] = Pick[any](g, []any{1, nil, false, []string{jku}, map[string]any{}})
			return resign()
		}},
		{"jku not configured", func() string {
			if g.P(60) { // close to one which is
				u := Pick(g, append([]string{"https://athenz.test/zts/v1" + jwksPath}, w.URLs...))
				if g.P(70) { // the one having the key
					if u = jku; u == "" {
						u = "https://athenz.test/zts/v1" + jwksPath
					}
				}
				full["jku"] = Pick(g, []string{u + "/", u + "?", u + "?x=1", strings.Split(u, "?")[0] + "?z", u + "x", u + "#x", " " + u, u + " ", strings.ToUpper(u), u[:len(u)-1], strings.Replace(u, "https:", "http:", 1), strings.Replace(u, ".test/", ".test:443/", 1), strings.Replace(u, ".test/", ".test//", 1), u + "&a=b", u + ",https://other.test/keys"})
				return resign()
			}
			full["jku"] = Pick(g, []string{"https://evil.test/keys", "https://other.test/keys/", "https://other.test/keys#x", "http://other.test/keys", "other.test/keys", "https://athenz.test/zts/v1", " "})
			return resign()
		}},
		{"signed by an unknown key", func() string {
			return rawAT(EC(20), "ES256", []byte(strings.Replace(string(hb()), key.Alg, "ES256", 1)), pb())
		}},
		{"signed by a policy key", func() string {
			return rawAT(w.ZTSKeys["zts1"], "ES256", []byte(strings.Replace(string(hb()), key.Alg, "ES256", 1)), pb())
		}},
		{"signed by a role token key of that id", func() string {
			full["kid"], full["alg"] = "zts1", "ES256"
			delete(full, "jku")
			return rawAT(w.ZTSKeys["zts1"], "ES256", hb(), pb())
		}},
		{"claims replaced", func() string {
			claims["scp"] = append([]string{"admin"}, roles...)
			return parts[0] + "." + b64(pb()) + "." + parts[2]
		}},
		{"expiry prolonged", func() string {
			claims["exp"] = exp + 1
			return parts[0] + "." + b64(pb()) + "." + parts[2]
		}},
		{"header replaced", func() string {
			full["x"] = "y"
			return b64(hb()) + "." + parts[1] + "." + parts[2]
		}},
		{"signature flipped", func() string { return parts[0] + "." + parts[1] + "." + flipSig(g, parts[2]) }},
		{"signature empty", func() string { return parts[0] + "." + parts[1] + "." }},
		{"signature missing", func() string { return parts[0] + "." + parts[1] }},
		{"signature cut", func() string { return parts[0] + "." + parts[1] + "." + parts[2][:len(parts[2])/2/4*4] }},
		{"signature of another token", func() string {
			claims["sub"] = "user.other"
			o := strings.Split(resign(), ".")
			return parts[0] + "." + parts[1] + "." + o[2]
		}},
		{"one more segment", func() string { return c.tok + "." + parts[2] }},
		{"segment before", func() string { return parts[0] + "." + c.tok }},
		{"unsigned", func() string {
			full["alg"] = Pick(g, []string{"none", "None", "NONE", "nOnE"})
			return b64(hb()) + "." + b64(pb()) + "." + Pick(g, []string{"", "", parts[2]})
		}},
		{"no alg", func() string { delete(full, "alg"); return rawAT(key, key.Alg, hb(), pb()) }},
		{"alg not a string", func() string {
			full["alg"] = Pick[any](g, []any{1, nil, []string{key.Alg}})
			return rawAT(key, key.Alg, hb(), pb())
		}},
		{"unknown alg", func() string {
			full["alg"] = Pick(g, []string{"ES257", "", "es256", "RS1"})
			return rawAT(key, key.Alg, hb(), pb())
		}},
		{"alg of another kind of key", func() string {
			o, a := RSA(2), "RS256"
			if key.Alg == "RS256" {
				o, a = EC(21), "ES256"
			}
			full["alg"] = a
			return rawAT(o, a, hb(), pb())
		}},
		{"hmac with the public key", func() string {
			full["alg"] = "HS256"
			p := b64(hb()) + "." + b64(pb())
			secret := Pick(g, [][]byte{key.PubPEM, derOf(key.Priv.Public()), []byte(key.Y64), {}, []byte(kid), must(json.Marshal(jwkOf(key, kid, true)))})
			m := hmac.New(sha256.New, secret)
			m.Write([]byte(p))
			return p + "." + b64(m.Sum(nil))
		}},
		{"empty", func() string { return "" }},
		{"dots", func() string { return strings.Repeat(".", g.Range(1, 6)) }},
		{"role token", func() string { return w.RoleToken(dom, roles, sub) }},
		{"text after", func() string {
			return c.tok + Pick(g, []string{"=", "==", " ", "\t", ",", ";", "?", "!", "%3d", "\x00"})
		}},
		{"text before", func() string {
			return Pick(g, []string{" ", "=", "\t", "Bearer ", "bearer ", ",", ".", "\x00"}) + c.tok
		}},
		{"padding", func() string { return parts[0] + "." + parts[1] + "=." + parts[2] }},
		{"claims not an object", func() string {
			return rawAT(key, key.Alg, hb(), []byte(Pick(g, []string{"[]", "1", `"x"`, "", "{", "null"})))
		}},
		{"header not an object", func() string {
			return rawAT(key, key.Alg, []byte(Pick(g, []string{"[]", "1", `"x"`, "", "{", "null"})), pb())
		}},
	}
	// the key of the same ID in another set, or a key of another set
	for _, u := range append([]string{""}, w.URLs...) {
		if u == jku {
			continue
		}
		foreign = append(foreign, u)
	}
	if len(foreign) > 0 {
		u := Pick(g, foreign)
		for n := 0; n < 3; n++ {
			ops = append(ops,
				op{"key of another key set", func() string {
					ks := w.set(u)
					id := Pick(g, sortedKeys(ks))
					if ks[id] == key {
						return c.tok
					}
					full["alg"] = ks[id].Alg
					return rawAT(ks[id], ks[id].Alg, hb(), pb())
				}},
				op{"key set of another URL", func() string {
					if w.set(u)[kid] == key {
						return c.tok
					}
					if u == "" {
						delete(full, "jku")
					} else {
						full["jku"] = u
					}
					return resign()
				}})
		}
	}
	o := Pick(g, ops)
	t := o.f()
	if t == c.tok {
		return c
	}
	c.tok, c.want, c.what = t, false, o.name
	return c
}

func checkC07(r *Run) {
	pools()
	r.Bubbles("tokens", r.Tier(450, 6000), func(t *testing.T, i int, g *Rng) {
		w := newATWorld(g)
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		dom := Pick(g, []string{"dom", "dom", "Dom.Sub", "DOM", "dom.sub_a-1.x"})
		roles := []string{"r1"}
		for n := g.N(4); n > 0; n-- {
			if o := Pick(g, []string{"r2", "r3", "R1", "r1 ", " r1", "r 1", "r1,r2", "r1;s=x", dom + ":role.r1", "r", "r11", "r/1", "*", "", "\u00e9"}); !slices.Contains(roles, o) {
				roles = append(roles, o)
			}
		}
		roles = Shuffle(g, roles)
		w.ServePolicy(w.Doc(dom, time.Now().Add(4000*time.Hour), []Ass{{dom + ":role.r1", "*", dom + ":*", "allow"}}))
		opts := []authorizerd.Option{authorizerd.WithCacheExp(time.Second), authorizerd.WithJwkURLs(w.URLs)}
		noPolicy := g.P(40)
		if noPolicy {
			opts = append(opts, authorizerd.WithDisablePolicyd())
			if g.P(50) {
				opts = append(opts, authorizerd.WithDisablePubkeyd())
			}
		}
		az := w.Authz([]string{dom}, opts...)
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		n := 0
		ask := func(c atCase, when string, want bool) {
			n++
			act := fmt.Sprintf("act%d", n)
			var cert *x509.Certificate
			if g.P(20) {
				cert = CertSpec{CN: "some.client", Issuer: "ca", NotBefore: time.Now()}.Make()
			}
			p, err := az.AuthorizeAccessToken(ctx, c.tok, act, "res", cert)
			got := ansOf(p, err)
			r.Eval(true, c.tok, when)
			r.Count("accepted", b2i(got.OK))
			r.Count("rejected", b2i(!got.OK))
			if got.OK != want {
				r.Violate(i, "acceptance", "token (%s, %s) accepted: %v, expected %v, error %v, time %d, key sets %v\n%s", c.what, when, got.OK, want, err, time.Now().Unix(), w.URLs, c.tok)
				return
			}
			if want {
				e := c.ans
				e.AuthRoles = []string{}
				if !noPolicy {
					e.AuthRoles = []string{"r1"}
				}
				if !got.Eq(e) {
					r.Violate(i, "principal", "token %s: principal %v, expected %v", c.tok, got, e)
				}
			} else if p != nil {
				r.Violate(i, "principal", "a rejected token has a principal: %s", c.tok)
			}
			if verr := az.VerifyAccessToken(ctx, c.tok, act+"v", "res", cert); (verr == nil) != want {
				r.Violate(i, "acceptance", "verify of token (%s, %s): %v, expected accepted %v\n%s", c.what, when, verr, want, c.tok)
			}
		}
		for k := 0; k < 25; k++ {
			if k == 12 && g.P(40) { // keys are replaced
				u := Pick(g, append([]string{""}, w.URLs...))
				ks := w.set(u)
				id := Pick(g, sortedKeys(ks))
				h := map[string]any{"kid": id}
				if u != "" {
					h["jku"] = u
				}
				now := time.Now().Unix()
				old := atCase{tok: AT(ks[id], h, ATClaims(dom, roles, "user.a", "client.a", now, now+1000)), what: "key still in use",
					ans: Ans{OK: true, OAuth: true, Name: "user.a", Domain: dom, Client: "client.a", Roles: roles, Issue: now, Expiry: now + 1000}}
				if g.P(70) {
					ask(old, "now", true)
					time.Sleep(1100 * time.Millisecond) // beyond the reuse of successes
				}
				switch g.N(3) {
				case 0:
					if len(ks) > 1 {
						delete(ks, id)
						break
					}
					fallthrough
				case 1:
					ks[id] = EC(18)
				case 2:
					ks[id] = RSA(2)
				}
				if u == "" {
					w.ServeKeys()
				} else {
					w.SetExtra(u, jwksDoc(ks), 2)
				}
				if err := az.Init(ctx); err != nil {
					r.Violate(i, "init", "second initialization failed: %v", err)
					return
				}
				old.what = "retired key"
				ask(old, "now", false)
				r.Count("tokens of retired keys", 1)
			}
			c := genAT(g, w, dom, roles)
			r.Count("case: "+c.what, 1)
			ask(c, "now", c.want)
			if c.from > 0 && g.P(40) {
				time.Sleep(time.Until(time.Unix(c.from, 0)) - time.Millisecond)
				ask(c, "before its time", false)
				time.Sleep(time.Until(time.Unix(c.from, 0)) + time.Millisecond)
				ask(c, "in time", true)
				r.Count("became valid", 1)
			}
			if c.want && g.P(20) && c.exp-time.Now().Unix() < 1000 {
				left := time.Until(time.Unix(c.exp, 0))
				if left > 2*time.Second {
					time.Sleep(left - time.Millisecond)
					ask(c, "before expiry", true)
				}
				late := Pick(g, []time.Duration{time.Millisecond, time.Second, 3 * time.Second})
				if noPolicy {
					late += time.Second // a success is reused whatever the action
				}
				time.Sleep(time.Until(time.Unix(c.exp, 0)) + late)
				ask(c, "after expiry", false)
				r.Count("expired in use", 1)
			}
		}
	})
	r.Need("accepted", 2000)
	r.Need("rejected", 2000)
	r.Need("expired in use", 50)
	r.Need("became valid", 50)
	r.Need("tokens of retired keys", 50)
	r.Need("case: key of another key set", 50)
	r.Need("case: hmac with the public key", 50)
}
