package vh

import (
	"context"
	"fmt"
	"net/http"
	"testing"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

func init() { checks["C15"] = checkC15 }

type verDoc struct {
	ver  int
	etag string
	exp  time.Time
}

func checkC15(r *Run) {
	pools()
	r.Bubbles("histories", r.Tier(900, 10000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		attempts := Pick(g, []int{0, 1, 1, 2, 3, 5, 11})
		delay := Pick(g, []time.Duration{time.Second, 7 * time.Second, 200 * time.Millisecond})
		margin := Pick(g, []time.Duration{0, 10 * time.Minute, 3 * time.Hour})
		tries := attempts + 1
		if attempts == 0 { // zero keeps what was configured before, one
			tries = 2
		}
		doms := []string{"dom.a", "dom.b", "dom.c"}[:g.Range(1, 3)]
		pd := w.Policyd(doms, policy.WithRetryAttempts(attempts), policy.WithRetryDelay(delay.String()), policy.WithExpiryMargin(margin.String()), policy.WithPurgePeriod("10000h"), policy.WithRefreshPeriod("10000h"))
		cfg := fmt.Sprintf("attempts %d delay %v margin %v domains %v", attempts, delay, margin, doms)
		docs := map[string]verDoc{} // by tag of the response
		specs := map[string]*DocSpec{}
		all := map[string][]int{}
		publish := func(d string) {
			w.Ver++
			life := Pick(g, []time.Duration{time.Hour, 24 * time.Hour, 1000 * time.Hour, margin + 5*time.Minute, margin + time.Minute, margin/2 + time.Minute})
			spec := w.Doc(d, time.Now().Add(life).Truncate(time.Millisecond), []Ass{{fmt.Sprintf("%s:role.v%d", d, w.Ver), "act", d + ":res", "allow"}})
			tag := Pick(g, []string{fmt.Sprintf(`"%s-%d"`, d, w.Ver), fmt.Sprintf(`"%s-%d"`, d, w.Ver), fmt.Sprintf(`W/"%d"`, w.Ver), ""})
			w.Set(policyPath(d), spec.JSON(), tag, w.Ver)
			docs[fmt.Sprint(w.Ver)] = verDoc{w.Ver, tag, spec.Expires}
			specs[d] = spec
			all[d] = append(all[d], w.Ver)
		}
		for _, d := range doms {
			publish(d)
		}
		acc := map[string]*verDoc{}
		eff := map[string]*verDoc{}
		hist := cfg
		for step := 0; step < 10; step++ {
			bad := map[string][]string{}
			for _, d := range doms {
				if g.P(45) {
					publish(d)
					hist += fmt.Sprintf("; %s publishes %+v", d, docs[fmt.Sprint(w.Ver)])
				}
				n := 0
				switch g.N(5) {
				case 0, 1:
					n = g.Range(1, tries)
				case 2:
					n = tries
				}
				for k := 0; k < n; k++ {
					bad[d] = append(bad[d], Pick(g, []string{"transport", "status", "json", "tampered", "tampered", "304", "foreign"}))
				}
				hist += fmt.Sprintf("; %s fails %v", d, bad[d])
			}
			count := map[string]int{}
			byPath := map[string]string{}
			for _, d := range doms {
				byPath[policyPath(d)] = d
			}
			st := Pick(g, []int{500, 503, 404, 401, 204, 302, 201, 202, 203, 206})
			lat := g.Dur(0, 400*time.Millisecond)
			w.SetFault(func(path string, q *http.Request, rec *Req) (Resp, bool) {
				d, ok := byPath[path]
				if !ok {
					return Resp{}, false
				}
				k := count[d]
				count[d]++
				if k >= len(bad[d]) {
					return Resp{}, false
				}
				rec.Tag = "bad " + bad[d][k]
				h := map[string]string{"ETag": fmt.Sprintf(`"bad-%d-%d"`, step, k)}
				switch bad[d][k] {
				case "transport":
					return Resp{Err: &netErr{true}, Delay: lat}, true
				case "status":
					return Resp{Status: st, Header: h, Delay: lat, Body: specs[d].JSON()}, true
				case "json":
					return Resp{Status: 200, Header: h, Delay: lat, Body: []byte("{")}, true
				case "304":
					return Resp{Status: 304, Header: h, Delay: lat}, true
				case "foreign":
					f := *specs[d]
					f.ZMS = w.ZTSKeys["zts1"]
					return Resp{Status: 200, Header: h, Delay: lat, Body: f.JSON()}, true
				}
				s := specs[d].Signed()
				s.SignedPolicyData.PolicyData.Policies[0].Assertions[0].Role += "x"
				return Resp{Status: 200, Header: h, Delay: lat, Body: must(jsonMarshal(s))}, true
			})
			before := w.NReqs()
			err := pd.Update(ctx)
			reqs := w.Reqs()[before:]
			r.Eval(true, i, step, hist)
			failed := false
			for _, d := range doms {
				var seq []Req
				for _, q := range reqs {
					if byPath[trimBase(q.URL)] == d {
						seq = append(seq, q)
					}
				}
				if len(seq) == 0 {
					r.Violate(i, "not fetched", "%s was not fetched by an update: %s", d, hist)
					return
				}
				done := false
				for k, q := range seq {
					a := acc[d]
					want, unsure := "", false
					if a != nil && a.etag != "" {
						left := a.exp.Add(-margin).Sub(q.At)
						unsure = left < 2*time.Second && left > -2*time.Second
						if left > 0 {
							want = a.etag
						}
					}
					r.Count("requests", 1)
					if want != "" {
						r.Count("conditional requests", 1)
					}
					if !unsure && q.IfNoneMatch != want {
						r.Violate(i, "conditional request", "%s request %d of update %d at %v has If-None-Match %q, expected %q, last accepted %+v: %s", d, k, step, q.At, q.IfNoneMatch, want, a, hist)
						return
					}
					if done {
						r.Violate(i, "request after success", "%s: request %d after a success: %s", d, k, hist)
						return
					}
					if k > 0 {
						if gap := q.At.Sub(seq[k-1].Done); gap < delay-10*time.Millisecond || gap > delay+10*time.Millisecond {
							r.Violate(i, "retry delay", "%s: attempt %d came %v after the failure: %s", d, k, gap, hist)
							return
						}
					}
					switch {
					case q.Status == 304:
						if a != nil {
							done = true
							r.Count("not modified", 1)
						}
					case q.Status == 200:
						if doc, ok := docs[q.Tag]; ok {
							left := doc.exp.Sub(q.Done)
							if left < 2*time.Second && left > -2*time.Second {
								return
							}
							if left > 0 {
								done = true
								acc[d] = &doc
								r.Count("accepted documents", 1)
							}
						}
					}
				}
				if !done && len(seq) != tries {
					r.Violate(i, "attempts", "%s: %d attempts without success, expected %d: %s", d, len(seq), tries, hist)
					return
				}
				if !done {
					r.Count("all attempts failed", 1)
					if acc[d] == nil {
						failed = true
					} else {
						r.Count("fallback", 1)
					}
				}
			}
			if failed != (err != nil) {
				r.Violate(i, "result", "update returned %v, expected failed %v: %s", err, failed, hist)
				return
			}
			if err == nil {
				for d, a := range acc {
					eff[d] = a
				}
			} else {
				r.Count("failed updates", 1)
			}
			for _, d := range doms {
				e := eff[d]
				if e != nil && time.Until(e.exp) < 5*time.Second {
					continue
				}
				for _, v := range all[d] {
					_, cerr := pd.CheckPolicyRoles(ctx, d, []string{fmt.Sprintf("v%d", v)}, "act", "res")
					want := e != nil && e.ver == v
					if want != (cerr == nil) {
						r.Violate(i, "effective document", "%s: version %d granted %v, the effective document should be %+v, update returned %v: %s", d, v, cerr == nil, e, err, hist)
						return
					}
				}
				r.Count("effective documents", 1)
			}
			hist += fmt.Sprintf("; update %v", err != nil)
			time.Sleep(Pick(g, []time.Duration{time.Second, time.Minute, 4 * time.Minute, time.Hour}))
		}
	})
	r.Need("conditional requests", 2000)
	r.Need("not modified", 500)
	r.Need("fallback", 500)
	r.Need("failed updates", 200)
	r.Need("accepted documents", 1000)
}
