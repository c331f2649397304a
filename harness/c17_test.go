package vh

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C17"] = checkC17 }

func checkC17(r *Run) {
	pools()
	r.Bubbles("initializations", r.Tier(1500, 20000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		base, fin := context.WithCancel(context.Background())
		defer settle(fin)
		doms := []string{"dom.a", "dom.b", "dom.c"}[:g.Range(0, 3)]
		extra := []string{"https://other.test/keys", "https://third.test/jwks?x=1", "https://fourth.test/k", "https://fifth.test/k", "http://sixth.test/k"}[:Pick(g, []int{0, 1, 1, 2, 2, 3, 5})]
		noPub, noPol, noJwk := g.P(15), g.P(15), g.P(15)
		att := g.Range(1, 3)
		pdelay := Pick(g, []time.Duration{time.Second, 10 * time.Second})
		opts := []authorizerd.Option{authorizerd.WithEnableRoleToken(), authorizerd.WithJwkURLs(extra), authorizerd.WithPolicyRetryAttempts(att),
			authorizerd.WithPolicyRetryDelay(pdelay.String()), authorizerd.WithHTTPClient(w.Client(20 * time.Second)),
			authorizerd.WithPubkeyRefreshPeriod("30m"), authorizerd.WithPolicyRefreshPeriod("40m"), authorizerd.WithJwkRefreshPeriod("20m")}
		for _, o := range []struct {
			no  bool
			opt authorizerd.Option
		}{{noPub, authorizerd.WithDisablePubkeyd()}, {noPol, authorizerd.WithDisablePolicyd()}, {noJwk, authorizerd.WithDisableJwkd()}} {
			if o.no {
				opts = append(opts, o.opt)
			}
		}
		az := w.Authz(doms, opts...)
		cfg := fmt.Sprintf("domains %v extra %v attempts %d delay %v disabled pubkeyd %v policyd %v jwkd %v", doms, extra, att, pdelay, noPub, noPol, noJwk)
		pages := append([]string{w.keyPath("zts"), w.keyPath("zms"), jwksPath}, extra...)
		for _, d := range doms {
			pages = append(pages, policyPath(d))
		}
		slow := map[string]time.Duration{}
		w.Latency = func(p string) time.Duration { return slow[p] }
		enabled := func(p string) bool {
			switch {
			case strings.Contains(p, "/signed_policy_data"):
				return !noPol
			case strings.Contains(p, "/service/"):
				return !noPub
			}
			return !noJwk
		}
		specs := map[string]string{} // version of a policy page to its role
		vers := map[string]string{}  // version served now
		gen := 0
		accepted := map[string]string{} // policy page to version
		hist := ""
		rounds := g.Range(1, 4)
		for round := 0; round < rounds; round++ {
			for _, p := range pages {
				slow[p] = Pick(g, []time.Duration{0, 0, time.Millisecond, 300 * time.Millisecond, 3 * time.Second})
			}
			gen++
			// all keys change, also those of the same ID
			oldZTS, oldZMS := w.ZTSKeys["zts1"], w.ZMSKeys["zms1"]
			w.ZTSKeys["zts1"], w.ZMSKeys["zms1"], w.JWKeys["at1"] = EC(2+4*(gen%4)), EC(3+4*(gen%4)), EC(4+4*(gen%4))
			w.ServeKeys()
			for n, u := range extra {
				w.SetExtra(u, jwksDoc(map[string]*Key{"x": EC(5 + n + 4*(gen%4))}), gen)
			}
			fault := map[string]int{}    // page to the number of attempts failing
			revoked := map[string]bool{} // policies signed by keys of the previous round only
			for _, d := range doms {
				doc := w.Doc(d, time.Now().Add(3000*time.Hour), []Ass{{fmt.Sprintf("%s:role.g%d", d, gen), "act", d + ":res", "allow"}, {d + ":role.base", "act", d + ":res", "allow"}})
				if g.P(10) {
					if g.P(50) {
						doc.ZTS = oldZTS
					} else {
						doc.ZMS = oldZMS
					}
					revoked[policyPath(d)] = true
				}
				w.ServePolicy(doc)
				vers[policyPath(d)] = fmt.Sprint(w.Ver)
				specs[fmt.Sprint(w.Ver)] = fmt.Sprintf("g%d", gen)
			}
			way := map[string]int{}
			for _, p := range pages {
				if g.P(Pick(g, []int{0, 0, 12})) {
					fault[p], way[p] = 1000, g.N(outageWays)
				} else if strings.Contains(p, "/signed_policy_data") && g.P(25) {
					fault[p], way[p] = g.Range(1, att), g.N(outageWays)
				}
			}
			left := map[string]int{}
			for p, n := range fault {
				left[p] = n
			}
			bad := map[int]bool{} // sequence numbers of faulty responses
			w.SetFault(func(p string, q *http.Request, rec *Req) (Resp, bool) {
				if left[p] > 0 {
					left[p]--
					bad[rec.Seq] = true
					return outage{way: way[p]}.resp(true), true
				}
				return Resp{}, false
			})
			ctx, cancel := context.WithCancel(base)
			cancelled := false
			when := time.Duration(-1)
			switch {
			case g.P(4):
				cancel()
				when, cancelled = 0, true
			case g.P(8):
				when = g.Dur(time.Millisecond, 8*time.Second)
				go func() {
					select {
					case <-time.After(when):
						cancel()
					case <-base.Done():
					}
				}()
			}
			before := w.NReqs()
			begin := time.Now()
			err := az.Init(ctx)
			took := time.Since(begin)
			cancelled = cancelled || ctx.Err() != nil
			hist += fmt.Sprintf("; round %d faults %v ways %v latencies %v revoked %v cancel %v took %v: %v", round, fault, way, slow, revoked, when, took, err)
			reqs := w.Reqs()[before:]
			r.Eval(true, cfg, hist)
			for _, q := range reqs {
				if !enabled(trimBase(q.URL)) {
					r.Violate(i, "disabled part", "%s%s: %s was requested", cfg, hist, q.URL)
					return
				}
			}
			bound := 2*20*time.Second + time.Duration(len(extra)+1)*20*time.Second + time.Duration(att+1)*(20*time.Second+pdelay) + time.Second
			if took > bound {
				r.Violate(i, "slow", "%s%s: initialization took longer than %v", cfg, hist, bound)
				return
			}
			// what was accepted, by the log
			ok := true
			why := ""
			fetched := map[string]bool{}
			keysAt := map[string]time.Time{}
			for _, q := range reqs {
				p := trimBase(q.URL)
				if q.Err == nil && q.Status == 200 && !bad[q.Seq] {
					if strings.Contains(p, "/service/") {
						keysAt[p] = q.Done
					}
				}
			}
			for _, q := range reqs {
				p := trimBase(q.URL)
				if q.Err != nil || q.Status != 200 || bad[q.Seq] || q.Done.IsZero() {
					continue
				}
				if strings.Contains(p, "/signed_policy_data") {
					if revoked[p] || noPub {
						continue
					}
					if len(keysAt) == 2 && (!q.Done.Before(keysAt[w.keyPath("zts")]) && !q.Done.Before(keysAt[w.keyPath("zms")])) {
						fetched[p] = true
						accepted[p] = q.Tag
					}
					continue
				}
				fetched[p] = true
			}
			for _, p := range pages {
				if !enabled(p) || fetched[p] || accepted[p] != "" {
					continue
				}
				ok, why = false, p
			}
			if err == nil && !ok {
				r.Violate(i, "success", "%s%s: initialization succeeded, although %s was not fetched or not acceptable", cfg, hist, why)
				return
			}
			if when >= 0 && took > when && err == nil && when == 0 {
				r.Violate(i, "success", "%s%s: initialization with a cancelled context succeeded", cfg, hist)
				return
			}
			if err != nil {
				r.Count("failed initializations", 1)
			}
			if err != nil && !cancelled {
				// a failing part cancels the others, so look at what was injected
				should := false
				for _, p := range pages {
					if !enabled(p) {
						continue
					}
					if strings.Contains(p, "/signed_policy_data") {
						should = should || (accepted[p] == "" && (fault[p] > att || revoked[p] || noPub))
					} else {
						should = should || fault[p] > 0
					}
				}
				if !should {
					r.Violate(i, "failure", "%s%s: initialization failed, although everything could be fetched", cfg, hist)
					return
				}
			}
			if err == nil {
				r.Count("successful initializations", 1)
				// everything is decided without another request
				w.SetFault(func(string, *http.Request, *Req) (Resp, bool) { return Resp{Err: &netErr{false}}, true })
				n := w.NReqs()
				now := time.Now().Unix()
				for _, d := range append(append([]string{}, doms...), "dom.z") {
					for _, role := range []string{"base", fmt.Sprintf("g%d", gen), fmt.Sprintf("g%d", gen-1)} {
						want := specs[accepted[policyPath(d)]] == role || (role == "base" && accepted[policyPath(d)] != "")
						if noPol {
							want = true
						}
						ask := func(what string, want bool, err error) bool {
							if (err == nil) != want {
								r.Violate(i, "not usable", "%s%s: %s for role %s of %s granted %v: %v", cfg, hist, what, role, d, err == nil, err)
								return false
							}
							r.Count("questions", 1)
							return true
						}
						for id, k := range w.ZTSKeys {
							err := az.VerifyRoleToken(base, RT{Domain: d, Roles: []string{role}, Principal: fmt.Sprint("p", i, round), T: now - 5, E: now + 500, KeyID: id}.Sign(k), "act", "res")
							if !ask("role token by "+id, want && !noPub, err) {
								return
							}
						}
						for id, k := range w.JWKeys {
							err := az.VerifyAccessToken(base, AT(k, map[string]any{"kid": id}, ATClaims(d, []string{role}, fmt.Sprint("p", i, round), "c", now-5, now+500)), "act", "res", nil)
							if !ask("access token by "+id, want && !noJwk, err) {
								return
							}
						}
						for n, u := range extra {
							err := az.VerifyAccessToken(base, AT(EC(5+n+4*(gen%4)), map[string]any{"kid": "x", "jku": u}, ATClaims(d, []string{role}, fmt.Sprint("p", i, round), "c", now-5, now+500)), "act", "res", nil)
							if !ask("access token by "+u, want && !noJwk, err) {
								return
							}
						}
					}
				}
				if w.NReqs() != n {
					r.Violate(i, "fetch", "%s%s: requests were made to decide valid credentials: %v", cfg, hist, tailReqs(w.Reqs(), 3))
					return
				}
			}
			cancel()
			time.Sleep(Pick(g, []time.Duration{0, time.Minute, time.Hour}))
		}
		if g.P(30) {
			w.SetFault(nil)
			ctx, cancel := context.WithCancel(base)
			n := w.NReqs()
			drain(az.Start(ctx))
			time.Sleep(50 * time.Minute)
			cancel()
			seen := map[string]bool{}
			for _, q := range w.Reqs()[n:] {
				seen[trimBase(q.URL)] = true
				if !enabled(trimBase(q.URL)) {
					r.Violate(i, "disabled part", "%s: after start %s was requested", cfg, q.URL)
					return
				}
			}
			for _, p := range pages {
				if enabled(p) != seen[p] {
					r.Violate(i, "disabled part", "%s: after start %s was requested %v", cfg, p, seen[p])
					return
				}
			}
			r.Count("starts", 1)
		}
	})
	r.Need("successful initializations", 800)
	r.Need("failed initializations", 300)
	r.Need("questions", 10000)
	r.Need("starts", 100)
}
