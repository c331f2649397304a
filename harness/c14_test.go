package vh

import (
	"context"
	"crypto"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/jwk"

	"verifharness/pt"
)

func init() { checks["C14"] = checkC14 }

func checkC14(r *Run) {
	pools()
	RSA(0)
	perturbYield(r)
	allKeys := append(append(append([]*Key{}, ecPool[:12]...), rsaPool...), p384Pool...)
	recognize := func(v any) *Key {
		for _, k := range allKeys {
			if e, ok := k.Priv.Public().(interface{ Equal(crypto.PublicKey) bool }); ok && v != nil {
				switch p := v.(type) {
				case crypto.PublicKey:
					if e.Equal(p) {
						return k
					}
				}
			}
		}
		return nil
	}
	kids := []string{"0", "1", "at1", "x", "a/b"}
	athenz := "https://" + stdBase + jwksPath
	// some easily taken for the Athenz server's
	extras := []string{"https://other.test/keys", "https://athenz.test/zts/v1/keys", "https://other.test/keys?v=2", "http://plain.test/keys",
		athenz + "&v=2", athenz + "/", strings.TrimSuffix(athenz, "?rfc=true"), strings.ToUpper(athenz[len("https://athenz.test"):]), "https://other.test/keys/"}
	extras[7] = "https://athenz.test" + extras[7]
	randSet := func(g *Rng, old map[string]*Key) map[string]*Key {
		m := map[string]*Key{}
		for _, id := range kids {
			switch k, ok := old[id]; {
			case ok && g.P(60):
				m[id] = k
			case g.P(40):
				m[id] = Pick(g, allKeys)
			}
		}
		return m
	}
	setDoc := func(g *Rng, m map[string]*Key) []byte {
		var d map[string]any
		if err := json.Unmarshal(jwksDoc(m), &d); err != nil {
			panic(err)
		}
		l := d["keys"].([]any)
		if g.P(20) {
			k := jwkOf(Pick(g, allKeys), "", true)
			if g.P(50) {
				delete(k, "kid")
			}
			l = append(l, k)
		}
		if g.P(2) { // a large document
			for n := g.Range(300, 1200); n > 0; n-- {
				l = append(l, jwkOf(Pick(g, allKeys), fmt.Sprint("fill", n), true))
			}
			r.Count("large key sets", 1)
		}
		d["keys"] = Shuffle(g, l)
		return must(json.Marshal(d))
	}
	r.Bubbles("histories", r.Tier(700, 8000), func(t *testing.T, i int, g *Rng) {
		a := NewAthenz(stdBase)
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		urls := Shuffle(g, extras)[:g.Range(0, 5)]
		targets := append([]string{athenz}, urls...)
		conf := urls
		if g.P(20) {
			conf = Shuffle(g, targets)
		}
		d := must(jwk.New(jwk.WithAthenzJwksURL("https://"+a.Base), jwk.WithURLs(conf), jwk.WithHTTPClient(a.Client(0))))
		prov := d.GetProvider()
		cur, good := map[string]map[string]*Key{}, map[string]map[string]*Key{}
		publish := func(u string) {
			cur[u] = randSet(g, cur[u])
			body := setDoc(g, cur[u])
			if u == athenz {
				a.Set(jwksPath, body, "", 1)
			} else {
				a.SetExtra(u, body, 1)
			}
		}
		for _, u := range targets {
			publish(u)
		}
		hist := fmt.Sprint("urls ", conf)
		for step := 0; step < 12; step++ {
			faulty := map[string]Resp{}
			for _, u := range targets {
				if g.P(50) {
					publish(u)
					hist += "; " + u + " publishes " + keyNames(cur[u])
				}
				if !g.P(30) {
					continue
				}
				body := setDoc(g, cur[u])
				cut := g.Range(1, len(body)-2)
				n := g.N(6)
				faulty[u] = []Resp{
					{Err: &netErr{true}},
					{Status: Pick(g, []int{500, 503, 404, 403, 401, 302, 304, 201, 202, 203, 204, 206}), Body: body},
					{Status: 200, Body: []byte(Pick(g, []string{"", "<html>", "[", `{"keys":5}`, `{"keys":[{"kid":"0","kty":"EC"}]}`}))},
					{Status: 200, Body: body[:cut]},
					{Status: 200, Body: body[:cut], BodyErr: errors.New("verif: connection reset")},
					{Err: context.DeadlineExceeded},
				}[n]
				hist += fmt.Sprintf("; %s fails in way %d", u, n)
			}
			a.SetFault(func(path string, q *http.Request, _ *Req) (Resp, bool) {
				rs, ok := faulty[q.URL.String()]
				return rs, ok
			})
			uctx := ctx
			cancelled := g.P(4)
			if cancelled {
				c, cc := context.WithCancel(ctx)
				cc()
				uctx = c
				hist += "; cancelled"
			}
			before := a.NReqs()
			err := d.Update(uctx)
			r.Eval(true, i, step, hist)
			r.Count(map[bool]string{true: "failed updates", false: "successful updates"}[err != nil], 1)
			if want := len(faulty) > 0 || cancelled; want != (err != nil) {
				r.Violate(i, "error", "update reports %v, expected failed %v: %s", err, want, hist)
				return
			}
			fetched := map[string]int{}
			for _, q := range a.Reqs()[before:] {
				fetched[q.URL]++
			}
			for _, u := range targets {
				if !cancelled && fetched[u] == 0 {
					r.Violate(i, "not fetched", "%s was not fetched by an update: %s", u, hist)
					return
				}
				if _, bad := faulty[u]; !bad && !cancelled {
					good[u] = cur[u]
				} else if good[u] != nil {
					r.Count("kept sets", 1)
				}
			}
			for _, u := range append([]string{"", "https://evil.test/keys", "https://other.test/keys/", "https://" + stdBase, "https://other.test", athenz + "/", athenz + "?x=1", athenz + "#x", athenz + "x", strings.ToUpper(athenz), extras[0] + "?", extras[0] + "/x", " " + extras[0], strings.Replace(extras[0], "https:", "http:", 1)}, append(targets, extras...)...) {
				want := good[u]
				if u == "" {
					want = good[athenz]
				}
				for _, id := range append([]string{"", "nokey", "bad", " 0", "0 ", "\tx", "X", "AT1", "at1.", "at", "00", "a%2fb", "a", "b", "x*"}, kids...) {
					v := prov(id, u)
					k := recognize(v)
					if (v != nil && k == nil) || k != want[id] {
						r.Violate(i, "lookup", "key %q of %q: found %s (%v), expected %s: %s", id, u, k.name(), v != nil, want[id].name(), hist)
						return
					}
					r.Count("lookups", 1)
				}
			}
			time.Sleep(time.Second)
		}
	})
	pt.Disable()
	r.casesOn("concurrent", r.Tier(60, 600), 2, func(t *testing.T, i int, g *Rng) {
		a := NewAthenz(stdBase)
		urls := extras[:2]
		targets := append([]string{athenz}, urls...)
		d := must(jwk.New(jwk.WithAthenzJwksURL("https://"+a.Base), jwk.WithURLs(urls), jwk.WithHTTPClient(a.Client(0))))
		prov := d.GetProvider()
		type trans struct{ old, new map[string]map[string]*Key }
		var now atomic.Pointer[trans]
		cur := map[string]map[string]*Key{}
		now.Store(&trans{cur, cur})
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			lg := NewRng(g.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					u, id := Pick(lg, targets), Pick(lg, kids)
					before := now.Load()
					k := recognize(prov(id, u))
					if now.Load() != before {
						continue
					}
					r.Count("concurrent lookups", 1)
					if o, n := before.old[u][id], before.new[u][id]; k != o && k != n {
						r.Violate(i, "lookup", "during an update key %q of %q is %s, neither the old %s nor the new %s", id, u, k.name(), o.name(), n.name())
						return
					}
				}
			}()
		}
		perturbOn(g)
		for step := 0; step < 25; step++ {
			next := map[string]map[string]*Key{}
			for _, u := range targets {
				next[u] = randSet(g, cur[u])
				if u == athenz {
					a.Set(jwksPath, setDoc(g, next[u]), "", step)
				} else {
					a.SetExtra(u, setDoc(g, next[u]), step)
				}
			}
			now.Store(&trans{cur, next})
			if err := d.Update(context.Background()); err != nil {
				r.Violate(i, "error", "update failed: %v", err)
				break
			}
			now.Store(&trans{next, next})
			cur = next
			r.Eval(true, "concurrent", i, step)
		}
		close(stop)
		wg.Wait()
	})
	ptReport(r)
	r.Need("successful updates", 1000)
	r.Need("failed updates", 1000)
	r.Need("kept sets", 500)
	r.Need("large key sets", 50)
	r.Need("concurrent lookups", 5000)
}
