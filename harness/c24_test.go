package vh

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"

	"verifharness/pt"
)

func init() { checks["C24"] = checkC24 }

// reportOf is the policy cache report of some assertions, by role.
func reportOf(rep map[string][]string, asss []Ass) {
	deny := map[Ass]bool{}
	for _, a := range asss {
		k := Ass{Role: a.Role, Action: a.Action, Resource: a.Resource}
		deny[k] = deny[k] || isDeny(a.Effect)
	}
	for k, d := range deny {
		i := strings.Index(k.Resource, ":")
		rep[k.Role] = append(rep[k.Role], fmt.Sprintf("%q %q %q deny %v", k.Resource[:i], k.Action, k.Resource[i+1:], d))
	}
	for _, l := range rep {
		sort.Strings(l)
	}
}

// gotReport normalizes what GetPolicyCache returned.
func gotReport(m map[string]interface{}) (map[string][]string, error) {
	rep := map[string][]string{}
	for role, v := range m {
		l, ok := v.([]*policy.Assertion)
		if !ok {
			return nil, fmt.Errorf("role %s has a %T", role, v)
		}
		for _, a := range l {
			rep[role] = append(rep[role], fmt.Sprintf("%q %q %q deny %v", a.ResourceDomain, a.Action, a.Resource, a.Effect != nil))
		}
		sort.Strings(rep[role])
	}
	return rep, nil
}

func sameReport(a, b map[string][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, l := range a {
		m, ok := b[k]
		if !ok || !eqStrings(l, m) {
			return false
		}
	}
	return true
}

func checkC24(r *Run) {
	pools()
	perturbYield(r)
	r.Bubbles("timelines", r.Tier(500, 6000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		gens := []*c01Gen{newC01Gen(g), newC01Gen(g), newC01Gen(g)}[:g.Range(1, 3)]
		var doms []string
		for k, c := range gens {
			c.domain = fmt.Sprintf("%s.d%d", c.domain, k)
			doms = append(doms, c.domain)
		}
		whole := g.P(30)
		az := w.Authz(doms, authorizerd.WithCacheExp(time.Hour), authorizerd.WithPolicyRefreshPeriod("10m"), authorizerd.WithPolicyPurgePeriod("2m"))
		pd := w.Policyd(doms, policy.WithPurgePeriod("2m"), policy.WithRefreshPeriod("10000h"))
		get := func() map[string]interface{} {
			if whole {
				return az.GetPolicyCache(ctx)
			}
			return pd.GetPolicyCache(ctx)
		}
		if m := get(); len(m) != 0 {
			r.Violate(i, "report", "the report before any update: %v", m)
			return
		}
		docs := map[string]*DocSpec{} // by tag
		publish := func(k int) {
			c := gens[k]
			d := w.Doc(c.domain, time.Now().Add(Pick(g, []time.Duration{3 * time.Minute, 11 * time.Minute, time.Hour, 300 * time.Hour})), c.policies()...)
			w.ServePolicy(d)
			docs[fmt.Sprint(w.Ver)] = d
		}
		hist := ""
		for k := range doms {
			publish(k)
		}
		if whole {
			if err := az.Init(ctx); err != nil {
				r.Violate(i, "init", "initialization failed: %v", err)
				return
			}
			drain(az.Start(ctx))
		} else if err := pd.Update(ctx); err != nil {
			r.Violate(i, "init", "update failed: %v", err)
			return
		}
		fail := map[string]bool{}
		w.SetFault(func(p string, q *http.Request, rec *Req) (Resp, bool) {
			return Resp{Err: &netErr{true}}, fail[p]
		})
		setFail := func(k int, v bool) {
			w.mu2.Lock()
			fail[policyPath(doms[k])] = v
			w.mu2.Unlock()
		}
		for step := 0; step < 14; step++ {
			k := g.N(len(doms))
			switch g.N(5) {
			case 0:
				publish(k)
				hist += "; publish " + doms[k]
			case 1:
				v := g.P(50)
				setFail(k, v)
				hist += fmt.Sprintf("; %s fails %v", doms[k], v)
			case 2:
				publish(k)
				if !whole {
					err := pd.Update(ctx)
					hist += fmt.Sprintf("; publish %s, update %v", doms[k], err)
					if err != nil {
						r.Violate(i, "update", "update fails although there are accepted policies: %v: %s", err, hist)
						return
					}
				}
			case 3:
				if !whole {
					pd.Update(ctx)
					hist += "; update"
				}
			}
			time.Sleep(g.Dur(20*time.Second, Pick(g, []time.Duration{time.Minute, 5 * time.Minute, 30 * time.Minute})))
			n := w.NReqs()
			reqs := w.Reqs()
			now := time.Now()
			got, err := gotReport(get())
			if err != nil {
				r.Violate(i, "report", "%v", err)
				return
			}
			want := map[string][]string{}
			var all []Ass
			unsure, expired := false, 0
			for _, d := range doms {
				var doc *DocSpec
				for _, q := range reqs {
					if trimBase(q.URL) != policyPath(d) || q.Status != 200 || q.Err != nil || q.Done.IsZero() {
						continue
					}
					left := docs[q.Tag].Expires.Sub(q.Done)
					unsure = unsure || (left < 2*time.Second && left > -2*time.Second)
					if left > 0 {
						doc = docs[q.Tag]
					}
				}
				if doc == nil {
					continue
				}
				left := doc.Expires.Sub(now)
				unsure = unsure || (left < 2*time.Second && left > -2*time.Second)
				if left > 0 {
					reportOf(want, doc.All())
					all = append(all, doc.All()...)
				} else {
					expired++
				}
			}
			// nothing being fetched around
			for _, q := range reqs {
				unsure = unsure || now.Sub(q.At) < 10*time.Second
			}
			if unsure || (w.NReqs() != n && expired == 0) {
				r.Count("unsure", 1)
				continue
			}
			r.Eval(len(want) > 0, i, step, hist)
			if !sameReport(got, want) {
				r.Violate(i, "report", "at %v after%s: the report is %v, expected %v", now, hist, got, want)
				return
			}
			r.Count("reports", 1)
			r.Count("reported roles", len(want))
			r.Count("reports with expired policies left out", b2i(expired > 0))
			if expired > 0 {
				continue // reading it may refresh
			}
			if _, err := json.Marshal(get()); err != nil {
				r.Violate(i, "report", "not encodable: %v", err)
				return
			}
			// what is reported is what decides
			for q := 0; q < 5 && len(all) > 0 && !whole; q++ {
				a := Pick(g, all)
				dom, role, _ := strings.Cut(a.Role, ":role.")
				act, res := a.Action, a.Resource[strings.Index(a.Resource, ":")+1:]
				if g.P(30) {
					_, act, res = gens[0].request()
				}
				_, err := pd.CheckPolicyRoles(ctx, dom, []string{role}, act, res)
				wantD, _ := decide(all, dom, []string{role}, act, res)
				if d, ok := decisionOf(err); !ok || d != wantD {
					r.Violate(i, "decision", "role %s action %q resource %q: %v (%v), expected %v by the report", a.Role, act, res, d, err, wantD)
					return
				}
				r.Count("decisions", 1)
			}
		}
	})
	// nothing without policy checking
	r.Bubbles("disabled", 5, func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		w.ServePolicy(w.Doc("dom", time.Now().Add(time.Hour), []Ass{{"dom:role.r", "a", "dom:b", "allow"}}))
		az := w.Authz([]string{"dom"}, authorizerd.WithDisablePolicyd())
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "initialization failed: %v", err)
			return
		}
		for k := 0; k < 2; k++ {
			if m := az.GetPolicyCache(ctx); m == nil || len(m) != 0 {
				r.Violate(i, "disabled", "the report with policy checking disabled is %v", m)
				return
			}
			drain(az.Start(ctx))
			time.Sleep(3 * time.Hour)
		}
		r.Count("reports without policies", 1)
	})

	pt.Disable()
	// during updates every report is that of one version, and decisions go on
	r.casesOn("concurrent", r.Tier(40, 500), 2, func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		doms := []string{"dom.a", "dom.b"}
		pd := w.Policyd(doms)
		roles := g.Range(1, 30)
		publish := func(v int) map[string][]string {
			want := map[string][]string{}
			for _, d := range doms {
				var asss []Ass
				for k := 0; k < roles; k++ {
					eff := "allow"
					if (v+k)%5 == 0 {
						eff = "deny"
					}
					role := fmt.Sprintf("%s:role.r%d", d, k)
					asss = append(asss, Ass{role, "act", d + ":fix", "allow"}, Ass{role, fmt.Sprintf("v%d", v), d + ":res", eff}, Ass{role, fmt.Sprintf("v%d", v), d + ":res", "allow"})
				}
				w.ServePolicy(w.Doc(d, time.Now().Add(time.Hour), asss[:len(asss)/2], asss[len(asss)/2:]))
				reportOf(want, asss)
			}
			return want
		}
		var mu sync.Mutex
		vers := map[int]map[string][]string{}
		var newest, oldest atomic.Int64
		set := func(v int) {
			rep := publish(v)
			mu.Lock()
			vers[v] = rep
			mu.Unlock()
			newest.Store(int64(v))
		}
		set(0)
		ctx := context.Background()
		if err := pd.Update(ctx); err != nil {
			r.Violate(i, "update", "update failed: %v", err)
			return
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for j := 0; j < 3; j++ {
			wg.Add(1)
			lg := NewRng(g.U64())
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					lo := oldest.Load()
					if j == 0 {
						k, d := lg.N(roles), Pick(lg, doms)
						if _, err := pd.CheckPolicyRoles(ctx, d, []string{fmt.Sprintf("r%d", k)}, "act", "fix"); err != nil {
							r.Violate(i, "disturbed", "a request allowed by every version is rejected while reports are read: %v", err)
							return
						}
						r.Count("concurrent decisions", 1)
						continue
					}
					got, err := gotReport(pd.GetPolicyCache(ctx))
					if err != nil {
						r.Violate(i, "report", "%v", err)
						return
					}
					hi := newest.Load()
					ok := false
					mu.Lock()
					for v := lo; v <= hi && !ok; v++ {
						ok = vers[int(v)] != nil && sameReport(got, vers[int(v)])
					}
					mu.Unlock()
					if !ok {
						r.Violate(i, "mixed report", "the report during updates is none of the versions %d to %d: %v", lo, hi, got)
						return
					}
					r.Count("concurrent reports", 1)
				}
			}()
		}
		perturbOn(g)
		for v := 1; v < 14; v++ {
			set(v)
			if err := pd.Update(ctx); err != nil {
				r.Violate(i, "update", "update failed: %v", err)
				break
			}
			oldest.Store(int64(v))
			r.Eval(true, "concurrent", i, v)
		}
		close(stop)
		wg.Wait()
	})
	ptReport(r)
	r.Need("reports", 2000)
	r.Need("reports with expired policies left out", 200)
	r.Need("concurrent reports", 500)
	r.Need("concurrent decisions", 500)
}
