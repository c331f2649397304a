package vh

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"
)

func init() { checks["C02"] = checkC02 }

const globAlphabet = `abzABZ019-_/.:,;|()[]{}^$+\&%#@!~=<>'"` + "`" + ` éÉжЖ世🎉`

// regexLike is text which is special in some language of patterns, none of which is used.
var regexLike = []string{"a{2}", "b{1,2}", "a+", "[a]", "[^a]", "[a-z]", "(a|b)", "a|b", `\d`, `\*`, `\?`, `\.`, `\Q`, `\E`, `\w`, "^a", "a$", "(?i)", "(?:a)", ".a", "a.", "$1", "${a}", "%2a", "!a", "{a,b}", `\x61`, `\pL`}

// what each of them would match, were it special
var regexWould = []string{"aa", "bb", "aaa", "a", "b", "z", "a", "b", "1", "*", "?", "zz", "", "ab", "za", "_"}

type globGen struct {
	g     *Rng
	alpha []rune
	frags bool
	paths bool // structured as by people, maybe long
}

func newGlobGen(g *Rng) *globGen {
	all := []rune(globAlphabet)
	n := g.Range(2, 7)
	gg := &globGen{g: g, frags: g.P(40), paths: g.P(25)}
	for i := 0; i < n; i++ {
		gg.alpha = append(gg.alpha, Pick(g, all))
	}
	return gg
}

func (c *globGen) pattern(max int) string {
	var sb strings.Builder
	if c.paths {
		g := c.g
		n := g.Range(1, 5)
		if g.P(25) {
			n = g.Range(6, 40)
		}
		sep := Pick(g, []string{"/", "/", ".", ":", "-", "_", "://", ", "})
		sb.WriteString(Pick(g, []string{"", "", sep}))
		for k := 0; k < n; k++ {
			if k > 0 {
				sb.WriteString(sep)
			}
			sb.WriteString(Pick(g, []string{"api", "v1", "users", "Svc-a", "index.html", "a", "", "*", "*", "**", "?", "??", "v?", "*.json", "img*", "a*b", "*-x", "{id}", "2021"}))
		}
		sb.WriteString(Pick(g, []string{"", "", sep, sep + "*", "*", "?", sep + "**", sep + "?*", "*?"}))
		return sb.String()
	}
	for n := c.g.Range(0, max); n > 0; n-- {
		switch k := c.g.N(10); {
		case k < 2:
			sb.WriteByte('*')
		case k < 3:
			sb.WriteByte('?')
		case k < 4 && c.frags:
			sb.WriteString(Pick(c.g, regexLike))
		default:
			sb.WriteRune(Pick(c.g, c.alpha))
		}
	}
	return sb.String()
}

func swapCase(r rune) rune {
	switch {
	case r >= 'a' && r <= 'z':
		return r - 32
	case r >= 'A' && r <= 'Z':
		return r + 32
	}
	for _, p := range [][2]rune{{'é', 'É'}, {'ж', 'Ж'}} {
		if r == p[0] {
			return p[1]
		}
		if r == p[1] {
			return p[0]
		}
	}
	return r
}

// special reads the fragments of the pattern as if they were special.
func (c *globGen) special(pat string) string {
	for k := 0; k < 8; k++ {
		f := Pick(c.g, regexLike)
		pat = strings.ReplaceAll(pat, f, Pick(c.g, regexWould))
	}
	return pat
}

// instance makes a string near the pattern: mostly matching, sometimes off by one edit.
func (c *globGen) instance(pat string) string {
	var out []rune
	for _, r := range pat {
		switch r {
		case '*':
			for n := c.g.N(4); n > 0; n-- {
				out = append(out, c.any())
			}
		case '?':
			out = append(out, c.any())
		default:
			if c.g.P(25) {
				r = swapCase(r)
			}
			out = append(out, r)
		}
	}
	if c.paths && c.g.P(30) && len(out) > 0 { // around the separators and at the ends
		g := c.g
		str := string(out)
		switch g.N(6) {
		case 0:
			str = strings.TrimRight(str, "/.:-_")
		case 1:
			str = strings.TrimLeft(str, "/.:-_")
		case 2:
			str += Pick(g, []string{"/", ".", "x", "/x", "/x/y", ":", "?a=b"})
		case 3:
			l := strings.SplitAfter(str, "/")
			k := g.N(len(l))
			str = strings.Join(append(l[:k:k], l[k+1:]...), "")
		case 4:
			str = str[:strings.LastIndexAny(" "+str, "/.:-_ ")]
		case 5:
			l := strings.Split(str, "/")
			k := g.N(len(l))
			l[k] = Pick(g, []string{"", ".", "..", "x", l[k] + l[k], "%2F"})
			str = strings.Join(l, "/")
		}
		return str
	}
	if c.g.P(45) {
		switch k := c.g.N(5); {
		case k == 0 && len(out) > 0: // drop one
			i := c.g.N(len(out))
			out = append(out[:i:i], out[i+1:]...)
		case k == 1: // insert one
			i := c.g.N(len(out) + 1)
			out = append(out[:i:i], append([]rune{c.any()}, out[i:]...)...)
		case k == 2 && len(out) > 0: // replace one
			out[c.g.N(len(out))] = c.any()
		case k == 3:
			out = append([]rune{c.any()}, out...)
		default:
			out = append(out, c.any())
		}
	}
	return string(out)
}

func (c *globGen) any() rune {
	switch k := c.g.N(20); {
	case k == 0:
		return '*'
	case k == 1:
		return '?'
	case k < 14:
		return Pick(c.g, c.alpha)
	}
	return Pick(c.g, []rune(globAlphabet))
}

func checkC02(r *Run) {
	pools()
	const perDoc = 40
	r.Bubbles("globs", r.Tier(260, 5000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		dom := Pick(g, []string{"dom", "a.b-c_d", "x"})
		pd := w.Policyd([]string{dom})
		gens := make([]*globGen, perDoc)
		var asss []Ass
		for k := range gens {
			gens[k] = newGlobGen(g)
			rd := dom
			switch g.N(12) {
			case 0:
				rd = upper(dom)
			case 1:
				rd = dom + "z"
			case 2:
				rd = "?" + dom[1:]
			case 3:
				rd = "*"
			case 4:
				rd = dom[:len(dom)-1]
			case 5:
				rd = Pick(g, []string{dom + ".sub", "sys." + dom, dom + ".*", "*." + dom, dom + " ", " " + dom, dom + "*", dom + ".", strings.ReplaceAll(dom, ".", "x"), "", dom + ":" + dom, dom + "-", dom + "/x"})
			}
			asss = append(asss, Ass{fmt.Sprintf("%s:role.r%d", dom, k), gens[k].pattern(6), rd + ":" + gens[k].pattern(8), Pick(g, []string{"allow", "allow", "deny"})})
		}
		w.ServePolicy(w.Doc(dom, time.Now().Add(240*time.Hour), asss))
		if err := pd.Update(ctx); err != nil {
			r.Violate(i, "update", "policy with assertions %q rejected: %v", asss, err)
			return
		}
		for k, a := range asss {
			pat := a.Resource[strings.Index(a.Resource, ":")+1:]
			for n := 0; n < 14; n++ {
				act, res := gens[k].instance(a.Action), gens[k].instance(pat)
				if gens[k].frags && g.P(40) {
					act, res = strings.Map(noWild, gens[k].special(a.Action)), strings.Map(noWild, gens[k].special(pat))
				}
				if g.P(30) {
					act = lowerStr(act)
				}
				want, _ := decide([]Ass{a}, dom, []string{fmt.Sprintf("r%d", k)}, act, res)
				_, err := pd.CheckPolicyRoles(ctx, dom, []string{fmt.Sprintf("r%d", k)}, act, res)
				got, ok := decisionOf(err)
				r.Count(want.String(), 1)
				r.Eval(true, a, "|", act, "|", res)
				if !ok || got != want {
					r.Violate(i, "match", "assertion %+q, domain %q, action %q, resource %q: got %v (error %v), expected %v", a, dom, act, res, got, err, want)
				}
			}
		}
		// a resource without a colon is not accepted, and the policies in effect stay
		if g.P(30) {
			bad := append(append([]Ass{}, asss[:g.Range(0, 3)]...), Ass{dom + ":role.bad", "*", strings.ReplaceAll(gens[0].pattern(8), ":", "") + "x", Pick(g, []string{"allow", "deny"})})
			w.ServePolicy(w.Doc(dom, time.Now().Add(240*time.Hour), Shuffle(g, bad)))
			if err := pd.Update(ctx); err == nil {
				r.Violate(i, "colon", "a policy with the resource %q lacking a colon was accepted", bad[len(bad)-1].Resource)
			}
			r.Count("resources without colon", 1)
			if d, _ := decisionOf(pd.CheckPolicy(ctx, dom, []string{"bad"}, "a", "x")); d != NoMatch {
				r.Violate(i, "colon", "an assertion of a rejected policy decides: %v", d)
			}
		}
	})
	// every printable ASCII character in a pattern against every one in the input, alone and between others
	r.Bubbles("ascii", 4, func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		pd := w.Policyd([]string{"dom"})
		pre, post := []string{"", "x", "", "x"}[i], []string{"", "", "x", "yz"}[i]
		var asss []Ass
		for c := rune(33); c < 127; c++ {
			asss = append(asss, Ass{fmt.Sprintf("dom:role.a%d", c), pre + string(c) + post, "dom:*", "allow"},
				Ass{fmt.Sprintf("dom:role.r%d", c), "*", "dom:" + pre + string(c) + post, "allow"})
		}
		w.ServePolicy(w.Doc("dom", time.Now().Add(240*time.Hour), asss))
		if err := pd.Update(ctx); err != nil {
			r.Violate(i, "update", "policy rejected: %v", err)
			return
		}
		for c := rune(33); c < 127; c++ {
			for d := rune(33); d < 127; d++ {
				pat, in := pre+string(c)+post, pre+string(d)+post
				want := NoMatch
				if globMatch(pat, in) {
					want = Allow
				}
				got, _ := decisionOf(pd.CheckPolicy(ctx, "dom", []string{fmt.Sprintf("a%d", c)}, in, "res"))
				got2, _ := decisionOf(pd.CheckPolicy(ctx, "dom", []string{fmt.Sprintf("r%d", c)}, "act", in))
				r.Eval(true, "ascii", pat, "|", in)
				r.Count("ascii pairs", 1)
				if got != want || got2 != want {
					r.Violate(i, "match", "pattern %q, input %q: as action %v, as resource %v, expected %v", pat, in, got, got2, want)
				}
			}
		}
	})
	// line ends: whether a wildcard matches one is not documented, all else is
	r.Bubbles("lines", r.Tier(30, 300), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		pd := w.Policyd([]string{"dom"})
		pieces := []string{"a", "b", "*", "?", "\n", "\r", "\t", " ", "a", "\n"}
		str := func(max int) string {
			var sb strings.Builder
			for n := g.Range(0, max); n > 0; n-- {
				sb.WriteString(Pick(g, pieces))
			}
			return sb.String()
		}
		var asss []Ass
		for k := 0; k < 20; k++ {
			asss = append(asss, Ass{fmt.Sprintf("dom:role.r%d", k), str(4), "dom:" + str(4), "allow"})
		}
		w.ServePolicy(w.Doc("dom", time.Now().Add(240*time.Hour), asss))
		if err := pd.Update(ctx); err != nil {
			r.Violate(i, "update", "policy %q rejected: %v", asss, err)
			return
		}
		for k, a := range asss {
			pat := a.Resource[4:]
			for n := 0; n < 20; n++ {
				edit := func(s string) string {
					s = strings.ReplaceAll(s, "*", Pick(g, []string{"", "a", "ab", "\n"}))
					s = strings.ReplaceAll(s, "?", Pick(g, []string{"a", "b", "\n"}))
					if g.P(50) {
						at := g.N(len(s) + 1)
						if g.P(30) {
							at = Pick(g, []int{0, len(s)})
						}
						s = s[:at] + Pick(g, pieces) + s[at:]
					}
					return s
				}
				act, res := edit(a.Action), edit(pat)
				yes := globLine(a.Action, act, false) && globLine(pat, res, false)
				maybe := globLine(a.Action, act, true) && globLine(pat, res, true)
				got, _ := decisionOf(pd.CheckPolicy(ctx, "dom", []string{fmt.Sprintf("r%d", k)}, act, res))
				if yes != maybe {
					r.Count("lines not judged", 1)
					continue
				}
				r.Eval(true, "lines", a, "|", act, "|", res)
				r.Count("lines", 1)
				if (got == Allow) != yes {
					r.Violate(i, "match", "assertion %q, action %q, resource %q: got %v, matches %v", a, act, res, got, yes)
				}
			}
		}
	})
	r.Need("lines", 1000)
	r.Need("ascii pairs", 30000)
	r.Need("allow", 5000)
	r.Need("no match", 5000)
	r.Need("deny", 1000)
	r.Need("resources without colon", 20)
}

func lowerStr(s string) string { return string(lowerRunes(s)) }

func noWild(c rune) rune {
	if c == '*' || c == '?' {
		return 'x'
	}
	return c
}

// globLine matches with wildcards matching the ends of lines too, or none.
func globLine(p, s string, any bool) bool {
	a, b := lowerRunes(p), lowerRunes(s)
	m := make([][]bool, len(a)+1)
	for i := range m {
		m[i] = make([]bool, len(b)+1)
	}
	m[0][0] = true
	for i := 1; i <= len(a); i++ {
		for j := 0; j <= len(b); j++ {
			ok := j > 0 && (any || b[j-1] != '\n' && b[j-1] != '\r')
			switch a[i-1] {
			case '*':
				m[i][j] = m[i-1][j] || ok && m[i][j-1]
			case '?':
				m[i][j] = ok && m[i-1][j-1]
			default:
				m[i][j] = j > 0 && a[i-1] == b[j-1] && m[i-1][j-1]
			}
		}
	}
	return m[len(a)][len(b)]
}
