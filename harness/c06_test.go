package vh

import (
	"context"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C06"] = checkC06 }

// Ans is the observable answer of the authorizer.
type Ans struct {
	OK                   bool
	Name, Domain, Client string
	Roles, AuthRoles     []string
	Issue, Expiry        int64
	OAuth                bool
}

func ansOf(p authorizerd.Principal, err error) Ans {
	if err != nil {
		return Ans{}
	}
	if p == nil {
		return Ans{OK: true, Name: "(granted without a principal)"}
	}
	a := Ans{OK: true, Name: p.Name(), Domain: p.Domain(), Roles: p.Roles(), AuthRoles: sortedSet(p.AuthorizedRoles()), Issue: p.IssueTime(), Expiry: p.ExpiryTime()}
	if o, ok := p.(authorizerd.OAuthAccessToken); ok {
		a.OAuth, a.Client = true, o.ClientID()
	}
	return a
}

func (a Ans) String() string {
	return fmt.Sprintf("%+v", struct{ Ans any }{struct {
		OK                   bool
		Name, Domain, Client string
		Roles, AuthRoles     []string
		Issue, Expiry        int64
		OAuth                bool
	}(a)})
}

func (a Ans) Eq(b Ans) bool { return a.String() == b.String() }

type rtCase struct {
	tok   string
	want  bool
	ans   Ans
	what  string
	valid string // the valid token it was made from
	exp   int64
}

// genRT makes a role token and says whether it has to be accepted at this time.
func genRT(g *Rng, w *World, dom string, roles []string) rtCase {
	now := time.Now().Unix()
	life := Pick(g, []int64{2, 10, 300, 3600, 86400, 1 << 40})
	e := now + life
	c := rtCase{what: "valid", want: true}
	if g.P(18) {
		e = now - Pick(g, []int64{2, 3, 60, 86400, now - 1, now + 5})
		c.want, c.what = false, "expired"
	}
	t := now - Pick(g, []int64{0, 1, 100, 1 << 25, -5, -600, -1 << 20})
	keyID := Pick(g, []string{"0", "zts1"})
	key := w.ZTSKeys[keyID]
	rs := roles
	princ := Pick(g, []string{"user.a", "sports.api", "user.x-y_z", "a=b"})
	f := [][2]string{{"v", "Z1"}, {"d", dom}, {"r", strings.Join(rs, ",")}, {"p", princ}, {"h", "host"}, {"a", fmt.Sprint(g.U64())},
		{"t", strconv.FormatInt(t, 10)}, {"e", strconv.FormatInt(e, 10)}, {"k", keyID}, {"i", "192.0.2.1"}}
	if g.P(20) {
		f = append(f, [2]string{"proxy", "user.proxy"})
	}
	if g.P(20) {
		f = append(f, [2]string{"zz", "x=y=z"})
	}
	if g.P(25) { // names of fields differ by case
		k := Pick(g, []string{"D", "R", "P", "E", "K", "T", "S", "rr", "role", " d", "r ", "domain", "n", "o"})
		f = append(f, [2]string{k, Pick(g, []string{"admin", "evil", "1", "9999999999", "zts1", "0", "", "x,y"})})
	}
	if g.P(30) {
		f = Shuffle(g, f)
	}
	if g.P(20) { // optional fields
		var o [][2]string
		for _, p := range f {
			if strings.Contains("vhai", p[0]) && g.P(50) {
				continue
			}
			o = append(o, p)
		}
		f = o
	}
	set := func(k, v string) {
		for i := range f {
			if f[i][0] == k {
				f[i][1] = v
			}
		}
	}
	join := func() string {
		var l []string
		for _, p := range f {
			l = append(l, p[0]+"="+p[1])
		}
		return strings.Join(l, ";")
	}
	good := join()
	sig := key.Sign(good)
	c.valid = good + ";s=" + sig
	c.exp = e
	c.tok = c.valid
	c.ans = Ans{OK: true, Name: princ, Domain: dom, Roles: rs, Issue: t, Expiry: e}
	if c.want && g.P(65) {
		c.want = false
		otherID := map[string]string{"0": "zts1", "zts1": "0"}[keyID]
		ops := []struct {
			name string
			f    func()
		}{
			{"signature of another zts key", func() { c.tok = good + ";s=" + w.ZTSKeys[otherID].Sign(good) }},
			{"signature of the zms key of that id", func() { set("k", "0"); u := join(); c.tok = u + ";s=" + w.ZMSKeys["0"].Sign(u) }},
			{"zms key id and key", func() { set("k", "zms1"); u := join(); c.tok = u + ";s=" + w.ZMSKeys["zms1"].Sign(u) }},
			{"unknown key id", func() { set("k", "nokey"); u := join(); c.tok = u + ";s=" + key.Sign(u) }},
			{"signed, key id close to another", func() {
				set("k", Pick(g, []string{" " + keyID, keyID + " ", "\t" + keyID, strings.ToUpper(keyID) + "_", "ZTS1", "zts", "zts1x", "zts11", "00", "0.", "+0", "%30", "zts1\x00", "\"0\"", keyID + ",", "sys.auth." + keyID, "zts." + keyID}))
				u := join()
				c.tok = u + ";s=" + key.Sign(u)
			}},
			{"empty key id", func() { set("k", ""); u := join(); c.tok = u + ";s=" + key.Sign(u) }},
			{"unknown key", func() { c.tok = good + ";s=" + EC(22).Sign(good) }},
			{"other key id, stale signature", func() { set("k", otherID); c.tok = join() + ";s=" + sig }},
			{"signature flipped", func() { c.tok = good + ";s=" + flipSig(g, sig) }},
			{"signature empty", func() { c.tok = good + ";s=" }},
			{"signature cut", func() { c.tok = good + ";s=" + sig[:len(sig)/2] }},
			{"signature of another token", func() {
				o := RT{Domain: dom, Roles: rs, Principal: princ, T: t, E: e + 1, KeyID: keyID}.Unsigned()
				c.tok = good + ";s=" + key.Sign(o)
			}},
			{"no signature", func() { c.tok = good }},
			{"no signature separator", func() { c.tok = good + "s=" + sig }},
			{"text flipped", func() {
				b := []byte(good)
				i := g.N(len(b))
				old := b[i]
				for b[i] == old {
					b[i] = Pick(g, []byte("abcdefghijklmnopqrstuvwxyz0123456789=;.,"))
				}
				c.tok = string(b) + ";s=" + sig
			}},
			{"text inserted", func() {
				i := g.N(len(good) + 1)
				c.tok = good[:i] + Pick(g, []string{"a", "0", ";", "=", ",admin", ";r=admin", ";d=evil", ";e=9999999999", ";k=0"}) + good[i:] + ";s=" + sig
			}},
			{"text appended after the signature text", func() { c.tok = good + ";r=admin;s=" + sig }},
			{"field before", func() { c.tok = "r=admin;" + good + ";s=" + sig }},
			{"text ending within the signature", func() { n := g.Range(1, 4); c.tok = good + sig[:n] + ";s=" + sig[n:] }},
			{"signature beginning within the text", func() { n := g.Range(1, 4); c.tok = good[:len(good)-n] + ";s=" + good[len(good)-n:] + sig }},
			{"text dropped", func() { i := g.N(len(good)); c.tok = good[:i] + good[i+1:] + ";s=" + sig }},
			{"domain replaced", func() { set("d", dom+"x"); c.tok = join() + ";s=" + sig }},
			{"expiry prolonged", func() { set("e", strconv.FormatInt(e+1, 10)); c.tok = join() + ";s=" + sig }},
			{"role added", func() { set("r", strings.Join(append([]string{"admin"}, rs...), ",")); c.tok = join() + ";s=" + sig }},
			{"signed, pair without =", func() { u := good + ";zz"; c.tok = u + ";s=" + key.Sign(u) }},
			{"signed, empty pair", func() { u := good + ";"; c.tok = u + ";s=" + key.Sign(u) }},
			{"signed, leading empty pair", func() { u := ";" + good; c.tok = u + ";s=" + key.Sign(u) }},
			{"signed, expiry not numeric", func() {
				set("e", Pick(g, []string{"", "x", "1e30", "0x7fffffff", "99999999999999999999999", "9999999999.5", " 9999999999"}))
				u := join()
				c.tok = u + ";s=" + key.Sign(u)
			}},
			{"signed, issue time not numeric", func() {
				set("t", Pick(g, []string{"", "x", "1e3", "0x1f", "99999999999999999999999", "1.5"}))
				u := join()
				c.tok = u + ";s=" + key.Sign(u)
			}},
			{"signed, no expiry", func() {
				var o [][2]string
				for _, p := range f {
					if p[0] != "e" {
						o = append(o, p)
					}
				}
				f = o
				u := join()
				c.tok = u + ";s=" + key.Sign(u)
			}},
			{"signed, no key id", func() {
				var o [][2]string
				for _, p := range f {
					if p[0] != "k" {
						o = append(o, p)
					}
				}
				f = o
				u := join()
				c.tok = u + ";s=" + key.Sign(u)
			}},
			{"white space before", func() { c.tok = Pick(g, []string{" ", "\t", "\n", "\r\n", "  "}) + c.tok }},
			{"white space after", func() { c.tok += Pick(g, []string{" ", "\t"}) }},
			{"second signature, over the first", func() { c.tok = c.tok + ";s=" + key.Sign(c.tok) }},
			{"second signature, over a forged first", func() { u := good + ";s=" + flipSig(g, sig); c.tok = u + ";s=" + key.Sign(u) }},
			{"upper case", func() { c.tok = strings.Replace(good, "d="+dom, "d="+upper(dom), 1) + ";s=" + sig }},
			{"empty", func() { c.tok = "" }},
			{"only separator", func() { c.tok = ";s=" }},
			{"only signature", func() { c.tok = ";s=" + sig }},
			{"signed text in base64 of another encoding", func() { c.tok = good + ";s=" + strings.NewReplacer(".", "+", "_", "/", "-", "=").Replace(sig) + "!" }},
		}
		o := Pick(g, ops)
		o.f()
		c.what = o.name
		if c.tok == c.valid {
			c.want, c.what = true, "valid"
		}
	}
	return c
}

func checkC06(r *Run) {
	pools()
	RSA(0)
	r.Bubbles("tokens", r.Tier(500, 6000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		if g.P(30) {
			w.ZTSKeys["0"] = RSA(0)
			w.ServeKeys()
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		dom := Pick(g, []string{"dom", "dom", "Dom.Sub", "DOM", "dom.sub_a-1.x"})
		roles := []string{"r1"}
		for n := g.N(4); n > 0; n-- {
			if o := Pick(g, []string{"r2", "r3", "R1", "r1 ", " r1", "r 1", "r1.x", "r1:x", dom + ":role.r1", "r", "r11", "r/1", "*", "r1=2"}); !slices.Contains(roles, o) {
				roles = append(roles, o)
			}
		}
		roles = Shuffle(g, roles)
		ass := []Ass{{dom + ":role.r1", "*", dom + ":*", "allow"}}
		w.ServePolicy(w.Doc(dom, time.Now().Add(4000*time.Hour), ass))
		opts := []authorizerd.Option{authorizerd.WithDisableJwkd(), authorizerd.WithCacheExp(time.Second)}
		noPolicy := g.P(30)
		if noPolicy {
			opts = append(opts, authorizerd.WithDisablePolicyd())
		}
		az := w.Authz([]string{dom}, opts...)
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		ask := func(n int, c rtCase, when string, want bool) {
			act := fmt.Sprintf("act%d", n)
			p, err := az.AuthorizeRoleToken(ctx, c.tok, act, "res")
			got := ansOf(p, err)
			r.Eval(true, c.tok, when)
			r.Count("accepted", b2i(got.OK))
			r.Count("rejected", b2i(!got.OK))
			if got.OK != want {
				r.Violate(i, "acceptance", "token (%s, %s) accepted: %v, expected %v, error %v, time %v\n%s", c.what, when, got.OK, want, err, time.Now(), c.tok)
				return
			}
			if want {
				e := c.ans
				if !noPolicy {
					e.AuthRoles = []string{"r1"}
				} else {
					e.AuthRoles = []string{}
				}
				if !got.Eq(e) {
					r.Violate(i, "principal", "token %s: principal %v, expected %v", c.tok, got, e)
				}
			} else if p != nil {
				r.Violate(i, "principal", "a rejected token has a principal: %s", c.tok)
			}
			if verr := az.VerifyRoleToken(ctx, c.tok, act+"v", "res"); (verr == nil) != want {
				r.Violate(i, "acceptance", "verify of token (%s, %s): %v, expected accepted %v\n%s", c.what, when, verr, want, c.tok)
			}
		}
		n := 0
		for k := 0; k < 25; k++ {
			c := genRT(g, w, dom, roles)
			if k == 12 && g.P(40) { // keys are replaced
				old := c
				w.ZTSKeys["0"] = EC(17)
				old.tok = RT{Domain: dom, Roles: roles, Principal: "user.a", T: time.Now().Unix(), E: time.Now().Unix() + 1000, KeyID: "zts1"}.Sign(w.ZTSKeys["zts1"])
				old.ans = Ans{OK: true, Name: "user.a", Domain: dom, Roles: roles, Issue: time.Now().Unix(), Expiry: time.Now().Unix() + 1000}
				old.what = "key still in use"
				if g.P(70) {
					n++
					ask(n, old, "now", true)
					time.Sleep(1100 * time.Millisecond) // beyond the reuse of successes
				}
				if g.P(50) {
					delete(w.ZTSKeys, "zts1")
				} else {
					w.ZTSKeys["zts1"] = EC(18)
				}
				spec := w.Doc(dom, time.Now().Add(4000*time.Hour), ass)
				spec.ZTS, spec.ZTSID = w.ZTSKeys["0"], "0"
				w.ServePolicy(spec)
				w.ServeKeys()
				if err := az.Init(ctx); err != nil {
					r.Violate(i, "init", "second initialization failed: %v", err)
					return
				}
				n++
				old.what = "retired key"
				ask(n, old, "now", false)
				r.Count("tokens of retired keys", 1)
				if w.ZTSKeys["zts1"] == nil {
					break
				}
				c = genRT(g, w, dom, roles)
			}
			n++
			r.Count("case: "+c.what, 1)
			if !c.want && c.what != "expired" && g.P(35) {
				v := c // the altered token after the one it was made from
				v.tok, v.what = c.valid, "valid"
				ask(n, v, "before an altered one", true)
				n++
				r.Count("altered tokens after the valid one", 1)
			}
			ask(n, c, "now", c.want)
			if c.want && g.P(20) && c.exp-time.Now().Unix() < 1000 {
				// just before and after it expires, beyond the reuse of successes
				left := time.Until(time.Unix(c.exp, 0))
				if left > 2*time.Second {
					time.Sleep(left - time.Millisecond)
					n++
					ask(n, c, "before expiry", true)
				}
				late := Pick(g, []time.Duration{time.Millisecond, time.Second, 3 * time.Second})
				if noPolicy {
					late += time.Second // a success is reused whatever the action
				}
				time.Sleep(time.Until(time.Unix(c.exp, 0)) + late)
				n++
				ask(n, c, "after expiry", false)
				r.Count("expired in use", 1)
			}
		}
	})
	r.Need("accepted", 2000)
	r.Need("rejected", 2000)
	r.Need("expired in use", 50)
	r.Need("altered tokens after the valid one", 500)
	r.Need("tokens of retired keys", 50)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
