package vh

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/client"
)

func init() { checks["C22"] = checkC22 }

var errBody = errors.New("verif: connection reset")

// timeoutErr is a timeout which is not temporary.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "verif: timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return false }

type step struct {
	Status int
	Temp   bool
	Perm   bool
	Lat    time.Duration
	Size   int
	Cut    bool // reading the body fails in the end
}

func retryable(s int) bool { return s == 429 || s == 500 || s == 503 || s == 504 }

func checkC22(r *Run) {
	r.Bubbles("scripts", r.Tier(6000, 60000), func(t *testing.T, i int, g *Rng) {
		factor := Pick(g, []float64{0.5, 1, 2, 3, 5, 10})
		max := Pick(g, []int{-1, 0, 1, 2, 3, 5, 8, 12})
		limit := Pick(g, []time.Duration{0, 100 * time.Millisecond, 3 * time.Second, 20 * time.Second, 5 * time.Minute, time.Hour})
		n := 15
		steps := make([]step, n)
		pErr, pRetry := g.Range(0, 90), g.Range(20, 95)
		for k := range steps {
			s := &steps[k]
			switch {
			case g.P(pErr):
				s.Temp = true
				if g.P(6) {
					s.Temp, s.Perm = false, true
				}
			case g.P(pRetry):
				s.Status = Pick(g, []int{429, 500, 503, 504})
			default:
				s.Status = Pick(g, []int{200, 200, 200, 304, 400, 401, 404, 501, 502, 204, 302})
			}
			s.Size = Pick(g, []int{0, 1, 10, 5000, 100000})
			s.Cut = g.P(15)
			if g.P(25) {
				s.Lat = g.Dur(0, 2*time.Second)
			}
		}
		cfg := fmt.Sprintf("factor %v retries %d limit %v", factor, max, limit)
		var errs []error
		var bodies [][]byte
		for k, s := range steps {
			b := make([]byte, s.Size)
			for j := range b {
				b[j] = byte(j*7 + k)
			}
			bodies = append(bodies, b)
			errs = append(errs, nil)
			if s.Temp {
				errs[k] = &netErr{true}
			} else if s.Perm {
				errs[k] = Pick(g, []error{&netErr{false}, errors.New("verif: permanent"), timeoutErr{}, http.ErrHandlerTimeout, io.ErrUnexpectedEOF})
			}
		}
		// other requests by the same transport, before and at the same time
		before, during := g.N(4)-1, g.N(4)-1
		var wmu sync.Mutex
		var owg sync.WaitGroup
		wg := NewRng(g.U64())
		seq := 0
		sv := &Server{}
		sv.Handle = func(q *http.Request, rec *Req) Resp {
			if q.URL.Path == "/other" {
				wmu.Lock()
				defer wmu.Unlock()
				return Pick(wg, []Resp{{Err: &netErr{true}}, {Err: &netErr{false}}, {Status: 503, Body: []byte("other")}, {Status: 200}})
			}
			k := seq
			seq++
			if k >= n {
				return Resp{Status: 200}
			}
			var berr error
			if steps[k].Cut {
				berr = errBody
			}
			return Resp{BodyErr: berr, Status: steps[k].Status, Err: errs[k], Body: bodies[k], Delay: steps[k].Lat, Header: map[string]string{"X-Step": fmt.Sprint(k)}}
		}
		rt := must(client.NewExponentialRoundTripper(sv, factor, max, limit))
		ctx := context.Background()
		if g.P(30) { // a deadline far away does not matter
			c, cancel := context.WithTimeout(ctx, Pick(g, []time.Duration{10 * time.Hour, 1000 * time.Hour}))
			defer cancel()
			ctx = c
		}
		req := must(http.NewRequestWithContext(ctx, "GET", "https://athenz.test/x?y=z", nil))
		req.Header.Set("If-None-Match", "tag")
		other := func() {
			if p, err := rt.RoundTrip(must(http.NewRequestWithContext(context.Background(), "GET", "https://athenz.test/other", nil))); err == nil && p != nil {
				io.Copy(io.Discard, p.Body)
				p.Body.Close()
			}
			r.Count("other requests", 1)
		}
		// the model walks along the script
		most := max
		if most < 1 {
			most = 1
		}
		wait := func(k int) time.Duration {
			return time.Duration(float64(2*k+1) / (factor * factor) * float64(time.Second))
		}
		at := time.Duration(0)
		last := 0
		exact := true // whether the number of attempts is certain
		for k := 0; ; k++ {
			last = k
			at += steps[k].Lat
			if steps[k].Perm || (!steps[k].Temp && !retryable(steps[k].Status)) || k+1 >= most {
				break
			}
			if steps[k].Temp {
				d := at + wait(k) - limit
				if d > -2*time.Millisecond && d < 2*time.Millisecond {
					exact = false
				}
				if d >= 0 {
					break
				}
				at += wait(k)
			}
		}
		if !exact {
			return
		}

		for ; before > 0; before-- {
			other()
		}
		for ; during > 0; during-- {
			owg.Add(1)
			go func() { defer owg.Done(); other() }()
		}
		start := time.Now()
		resp, err := rt.RoundTrip(req)
		var reqs []Req
		for _, q := range sv.Reqs() {
			if !strings.HasSuffix(q.URL, "/other") {
				reqs = append(reqs, q)
			}
		}
		defer owg.Wait()
		trace := fmt.Sprintf("(%s) script %+v", cfg, steps[:last+1])
		r.Eval(last > 0, cfg, steps[:last+1])
		r.Count("attempts", len(reqs))
		if resp == nil && err == nil {
			r.Violate(i, "nothing returned", "%s: %d attempts, neither response nor error", trace, len(reqs))
			return
		}
		if len(reqs) > most {
			r.Violate(i, "too many attempts", "%s: %d attempts", trace, len(reqs))
			return
		}
		if len(reqs) != last+1 {
			r.Violate(i, "attempts", "%s: %d attempts, expected %d", trace, len(reqs), last+1)
			return
		}
		if (resp == nil) == (err == nil) {
			r.Violate(i, "neither", "%s: response %v and error %v", trace, resp, err)
			return
		}
		for k := 1; k < len(reqs); k++ {
			if steps[k-1].Temp {
				got, want := reqs[k].At.Sub(reqs[k-1].Done), wait(k-1)
				r.Count("waits", 1)
				if d := got - want; d < -want/100 || d > want/100+time.Millisecond {
					r.Violate(i, "wait", "%s: wait %d was %v, expected %v", trace, k-1, got, want)
				}
			}
			if reqs[k].URL != reqs[0].URL || reqs[k].Method != "GET" || reqs[k].IfNoneMatch != "tag" {
				r.Violate(i, "request", "%s: request changed to %+v", trace, reqs[k])
			}
		}
		s := steps[last]
		if errs[last] != nil {
			r.Count("ended with an error", 1)
			if err == nil || !errors.Is(err, errs[last]) {
				r.Violate(i, "error", "%s: response %v, error %v, expected error %v", trace, resp, err, errs[last])
			}
		} else if err != nil {
			r.Violate(i, "error", "%s: error %v, expected status %d", trace, err, s.Status)
		} else {
			r.Count("ended with a response", 1)
			if retryable(s.Status) {
				r.Count("ended with a retryable status", 1)
			}
			b, rerr := io.ReadAll(resp.Body)
			if resp.StatusCode != s.Status || resp.Header.Get("X-Step") != fmt.Sprint(last) || (rerr != nil) != s.Cut || string(b) != string(bodies[last]) {
				r.Violate(i, "response", "%s: status %d, step %s, %d bytes (%v), expected the intact response of step %d with %d bytes", trace, resp.StatusCode, resp.Header.Get("X-Step"), len(b), rerr, last, s.Size)
			}
			resp.Body.Close()
		}
		for k, q := range reqs {
			if q.Body != nil && !q.Body.closed.Load() {
				r.Violate(i, "body", "%s: body of attempt %d is not closed", trace, k)
			}
		}
		if limit > 0 && len(reqs) > 0 {
			for k := 1; k < len(reqs); k++ {
				if steps[k-1].Temp && reqs[k].At.Sub(start) > limit {
					r.Violate(i, "time limit", "%s: attempt %d after %v", trace, k, reqs[k].At.Sub(start))
				}
			}
		}
	})
	r.Need("waits", 2000)
	r.Need("ended with an error", 500)
	r.Need("ended with a response", 500)
	r.Need("ended with a retryable status", 200)
}
