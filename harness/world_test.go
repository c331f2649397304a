package vh

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/golang-jwt/jwt/v4"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// ---- keys

type Key struct {
	Priv   crypto.Signer
	PubPEM []byte
	Y64    string // the public key as served by the key endpoint
	Alg    string
	signer zmssvctoken.Signer
}

func (k *Key) Sign(s string) string {
	v, err := k.signer.Sign(s)
	if err != nil {
		panic(err)
	}
	return v
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func newKey(priv crypto.Signer) *Key {
	k := &Key{Priv: priv}
	var blk *pem.Block
	switch p := priv.(type) {
	case *ecdsa.PrivateKey:
		blk = &pem.Block{Type: "EC PRIVATE KEY", Bytes: must(x509.MarshalECPrivateKey(p))}
		switch p.Curve {
		case elliptic.P384():
			k.Alg = "ES384"
		default:
			k.Alg = "ES256"
		}
	case *rsa.PrivateKey:
		blk = &pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(p)}
		k.Alg = "RS256"
	}
	k.signer = must(zmssvctoken.NewSigner(pem.EncodeToMemory(blk)))
	k.PubPEM = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: must(x509.MarshalPKIXPublicKey(priv.Public()))})
	k.Y64 = new(zmssvctoken.YBase64).EncodeToString(k.PubPEM)
	return k
}

func ECKey() *Key { return newKey(must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))) }

var (
	poolOnce sync.Once
	ecPool   []*Key
	rsaPool  []*Key
	p384Pool []*Key
)

// Pool returns fixed sets of keys made once per process.
func pools() {
	poolOnce.Do(func() {
		for i := 0; i < 24; i++ {
			ecPool = append(ecPool, ECKey())
		}
		for i := 0; i < 3; i++ {
			rsaPool = append(rsaPool, newKey(must(rsa.GenerateKey(rand.Reader, 2048))))
		}
		p384Pool = append(p384Pool, newKey(must(ecdsa.GenerateKey(elliptic.P384(), rand.Reader))))
	})
}

func EC(i int) *Key  { pools(); return ecPool[i%len(ecPool)] }
func RSA(i int) *Key { pools(); return rsaPool[i%len(rsaPool)] }
func P384() *Key     { pools(); return p384Pool[0] }

// ---- the transport: every request goes through it, nothing ever leaves the process

type Resp struct {
	Status  int
	Header  map[string]string
	Body    []byte
	Err     error         // transport error instead of a response
	BodyErr error         // error after the body was read
	Delay   time.Duration // before the response
	Hang    bool          // until the context of the request is done
}

type Req struct {
	Seq         int
	Method, URL string
	Host        string
	IfNoneMatch string
	At          time.Time
	Done        time.Time // when the response was returned
	Status      int       // of the response, 0 for an error
	Err         error
	Body        *trackedBody
	ETag        string
	Tag         string // set by the server model
}

type Server struct {
	mu     sync.Mutex
	reqs   []*Req
	Handle func(r *http.Request, rec *Req) Resp // must not block
	open   atomic.Int64
	onReq  func(*Req)
	NoLog  bool
}

type trackedBody struct {
	s      *Server
	rd     *bytes.Reader
	err    error
	closed atomic.Bool
	eof    atomic.Bool
}

func (b *trackedBody) Read(p []byte) (int, error) {
	if b.closed.Load() {
		return 0, errors.New("verif: read of a closed body")
	}
	n, err := b.rd.Read(p)
	if err == io.EOF {
		b.eof.Store(true)
		if b.err != nil {
			err = b.err
		}
	}
	return n, err
}

func (b *trackedBody) Close() error {
	if !b.closed.Swap(true) {
		b.s.open.Add(-1)
	}
	return nil
}

type netErr struct{ temp bool }

func (e *netErr) Error() string   { return fmt.Sprintf("verif: network error, temporary: %v", e.temp) }
func (e *netErr) Temporary() bool { return e.temp }
func (e *netErr) Timeout() bool   { return false }

func (s *Server) RoundTrip(r *http.Request) (*http.Response, error) {
	rec := &Req{Method: r.Method, URL: r.URL.String(), Host: r.URL.Host, IfNoneMatch: r.Header.Get("If-None-Match"), At: time.Now()}
	s.mu.Lock()
	rec.Seq = len(s.reqs)
	if !s.NoLog {
		s.reqs = append(s.reqs, rec)
	}
	rs := s.Handle(r, rec)
	s.mu.Unlock()
	fin := func(status int, err error) {
		s.mu.Lock()
		rec.Done, rec.Status, rec.Err = time.Now(), status, err
		cb := s.onReq
		s.mu.Unlock()
		if cb != nil {
			cb(rec)
		}
	}
	if r.Context().Err() != nil {
		fin(0, r.Context().Err())
		return nil, r.Context().Err()
	}
	if rs.Hang {
		<-r.Context().Done()
		fin(0, r.Context().Err())
		return nil, r.Context().Err()
	}
	if rs.Delay > 0 {
		t := time.NewTimer(rs.Delay)
		select {
		case <-t.C:
		case <-r.Context().Done():
			t.Stop()
			fin(0, r.Context().Err())
			return nil, r.Context().Err()
		}
	}
	if rs.Err != nil {
		fin(0, rs.Err)
		return nil, rs.Err
	}
	b := &trackedBody{s: s, rd: bytes.NewReader(rs.Body), err: rs.BodyErr}
	s.open.Add(1)
	h := http.Header{}
	for k, v := range rs.Header {
		h.Set(k, v)
	}
	s.mu.Lock()
	rec.Body, rec.ETag = b, h.Get("ETag")
	s.mu.Unlock()
	fin(rs.Status, nil)
	return &http.Response{Status: fmt.Sprint(rs.Status), StatusCode: rs.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: int64(len(rs.Body)), Request: r}, nil
}

// Reqs is a copy of the log.
func (s *Server) Reqs() []Req {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make([]Req, len(s.reqs))
	for i, r := range s.reqs {
		out[i] = *r
	}
	return out
}

func (s *Server) NReqs() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.reqs)
}

func (s *Server) Client(timeout time.Duration) *http.Client {
	return &http.Client{Transport: s, Timeout: timeout}
}

// ---- policy documents

type Ass struct{ Role, Action, Resource, Effect string }

type DocSpec struct {
	Domain   string
	Policies [][]Ass
	Expires  time.Time
	Modified time.Time
	ZTS, ZMS *Key
	ZTSID    string
	ZMSID    string
	Names    int // how many names the policies share, none: a name each
}

func ts(t time.Time) *rdl.Timestamp { v := rdl.NewTimestamp(t); return &v }

func (d *DocSpec) Data() *util.PolicyData {
	pd := &util.PolicyData{Domain: d.Domain}
	for i, p := range d.Policies {
		if d.Names > 0 {
			i %= d.Names
		}
		pol := &util.Policy{Name: fmt.Sprintf("%s:policy.p%d", d.Domain, i), Modified: ts(d.Modified)}
		for j, a := range p {
			pol.Assertions = append(pol.Assertions, &util.Assertion{Action: a.Action, Effect: a.Effect, Resource: a.Resource, Role: a.Role, Id: int64(j + 1)})
		}
		pd.Policies = append(pd.Policies, pol)
	}
	return pd
}

func signDoc(pd *util.PolicyData, expires, modified *rdl.Timestamp, zts *Key, ztsID string, zms *Key, zmsID string) *util.DomainSignedPolicyData {
	spd := &util.SignedPolicyData{Expires: expires, Modified: modified, PolicyData: pd, ZmsKeyId: zmsID}
	spd.ZmsSignature = zms.Sign(string(must(json.Marshal(pd))))
	return &util.DomainSignedPolicyData{KeyId: ztsID, SignedPolicyData: spd, Signature: zts.Sign(string(must(json.Marshal(spd))))}
}

func (d *DocSpec) Signed() *util.DomainSignedPolicyData {
	return signDoc(d.Data(), ts(d.Expires), ts(d.Modified), d.ZTS, d.ZTSID, d.ZMS, d.ZMSID)
}

func (d *DocSpec) JSON() []byte { return must(json.Marshal(d.Signed())) }

// All assertions of the document.
func (d *DocSpec) All() []Ass {
	var r []Ass
	for _, p := range d.Policies {
		r = append(r, p...)
	}
	return r
}

// ---- a model Athenz server

type Athenz struct {
	Uncond   bool // answers every request in full
	*Server
	Base string // host and base path
	mu2  sync.Mutex
	// what is served, by path without the base
	pages map[string]*Page
	// full URLs of extra key sets
	extra map[string]*Page
	Sys   string
	// Fault, when it returns true, replaces the response
	Fault func(path string, r *http.Request, rec *Req) (Resp, bool)
	// Latency of each response
	Latency func(path string) time.Duration
	// Unknown requests
	Unknown []string
}

type Page struct {
	Body []byte
	ETag string
	Ver  int
}

func NewAthenz(base string) *Athenz {
	a := &Athenz{Server: &Server{}, Base: base, pages: map[string]*Page{}, extra: map[string]*Page{}, Sys: "sys.auth"}
	a.Handle = a.handle
	return a
}

func (a *Athenz) handle(r *http.Request, rec *Req) Resp {
	a.mu2.Lock()
	defer a.mu2.Unlock()
	u := r.URL.String()
	var path string
	var pg *Page
	if p, ok := strings.CutPrefix(u, "https://"+a.Base); ok {
		path = p
		pg = a.pages[path]
	}
	if pg == nil {
		if e := a.extra[u]; e != nil {
			pg, path = e, u
		}
	}
	if pg == nil || r.Method != http.MethodGet {
		a.Unknown = append(a.Unknown, r.Method+" "+u)
	}
	if path == "" {
		path = u
	}
	var lat time.Duration
	if a.Latency != nil {
		lat = a.Latency(path)
	}
	if a.Fault != nil {
		if rs, ok := a.Fault(path, r, rec); ok {
			if rs.Delay == 0 {
				rs.Delay = lat
			}
			return rs
		}
	}
	if pg == nil {
		return Resp{Status: 404, Body: []byte(`{"code":404}`), Delay: lat}
	}
	rec.Tag = fmt.Sprint(pg.Ver)
	h := map[string]string{"Content-Type": "application/json"}
	if pg.ETag != "" {
		h["ETag"] = pg.ETag
		if r.Header.Get("If-None-Match") == pg.ETag && !a.Uncond {
			return Resp{Status: 304, Header: h, Delay: lat}
		}
	}
	return Resp{Status: 200, Header: h, Body: pg.Body, Delay: lat}
}

const jwksPath = "/oauth2/keys?rfc=true"

func policyPath(domain string) string       { return "/domain/" + domain + "/signed_policy_data" }
func (a *Athenz) keyPath(env string) string { return "/domain/" + a.Sys + "/service/" + env }
func (a *Athenz) SetFault(f func(path string, r *http.Request, rec *Req) (Resp, bool)) {
	a.mu2.Lock()
	a.Fault = f
	a.mu2.Unlock()
}

func (a *Athenz) Set(path string, body []byte, etag string, ver int) {
	a.mu2.Lock()
	a.pages[path] = &Page{body, etag, ver}
	a.mu2.Unlock()
}

func (a *Athenz) SetExtra(u string, body []byte, ver int) {
	a.mu2.Lock()
	a.extra[u] = &Page{body, "", ver}
	a.mu2.Unlock()
}

func pubKeyDoc(env string, keys map[string]*Key) []byte {
	type pk struct {
		ID  string `json:"id"`
		Key string `json:"key"`
	}
	doc := struct {
		Modified   string `json:"modified"`
		Name       string `json:"name"`
		PublicKeys []pk   `json:"publicKeys"`
	}{"2000-01-01T00:00:00.000Z", "sys.auth." + env, []pk{}}
	for _, id := range sortedKeys(keys) {
		doc.PublicKeys = append(doc.PublicKeys, pk{id, keys[id].Y64})
	}
	return must(json.Marshal(doc))
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func jwkOf(k *Key, kid string, withAlg bool) map[string]any {
	m := map[string]any{"kid": kid, "use": "sig"}
	if withAlg {
		m["alg"] = k.Alg
	}
	switch p := k.Priv.Public().(type) {
	case *ecdsa.PublicKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		m["kty"], m["crv"] = "EC", p.Curve.Params().Name
		m["x"], m["y"] = b64(p.X.FillBytes(make([]byte, n))), b64(p.Y.FillBytes(make([]byte, n)))
	case *rsa.PublicKey:
		m["kty"], m["n"], m["e"] = "RSA", b64(p.N.Bytes()), b64(big.NewInt(int64(p.E)).Bytes())
	}
	return m
}

func jwksDoc(keys map[string]*Key) []byte {
	l := []any{}
	for i, id := range sortedKeys(keys) {
		l = append(l, jwkOf(keys[id], id, i%2 == 0))
	}
	return must(json.Marshal(map[string]any{"keys": l}))
}

// ---- tokens

type RT struct {
	Domain, Principal string
	Roles             []string
	T, E              int64
	KeyID             string
}

func (t RT) Unsigned() string {
	return fmt.Sprintf("v=Z1;d=%s;r=%s;p=%s;h=host.example;a=0123456789abcdef;t=%d;e=%d;k=%s;i=192.0.2.1", t.Domain, strings.Join(t.Roles, ","), t.Principal, t.T, t.E, t.KeyID)
}

func (t RT) Sign(k *Key) string {
	u := t.Unsigned()
	return u + ";s=" + k.Sign(u)
}

func signMethod(alg string) jwt.SigningMethod { return jwt.GetSigningMethod(alg) }

// AT makes an access token with any header and claims.
func AT(k *Key, header, claims map[string]any) string {
	h := map[string]any{"alg": k.Alg, "typ": "at+jwt"}
	for n, v := range header {
		if v == nil {
			delete(h, n)
		} else {
			h[n] = v
		}
	}
	p := b64(must(json.Marshal(h))) + "." + b64(must(json.Marshal(claims)))
	return p + "." + must(signMethod(k.Alg).Sign(p, k.Priv))
}

func ATClaims(domain string, roles []string, sub, clientID string, iat, exp int64) map[string]any {
	return map[string]any{"sub": sub, "iss": "https://athenz.test/zts/v1", "aud": domain, "scp": roles, "client_id": clientID,
		"uid": sub, "ver": 1, "iat": iat, "exp": exp, "auth_time": iat}
}

// ---- certificates

var certSerial atomic.Int64

type CertSpec struct {
	Issuer, CN string
	NotBefore  time.Time
	URIs       []string
	DNS        []string
	OU         string
}

func (c CertSpec) Make() *x509.Certificate {
	pools()
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(certSerial.Add(1)), Subject: pkix.Name{CommonName: c.CN},
		NotBefore: c.NotBefore, NotAfter: c.NotBefore.Add(30 * 24 * time.Hour)}
	tmpl.DNSNames = c.DNS
	if c.OU != "" {
		tmpl.Subject.OrganizationalUnit = []string{c.OU}
	}
	for _, u := range c.URIs {
		tmpl.URIs = append(tmpl.URIs, must(url.Parse(u)))
	}
	parent := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: c.Issuer}}
	i := int(certSerial.Load())
	der := must(x509.CreateCertificate(rand.Reader, tmpl, parent, EC(i).Priv.Public(), EC(0).Priv))
	return must(x509.ParseCertificate(der))
}

func thumb(c *x509.Certificate) string {
	s := sha256.Sum256(c.Raw)
	return b64(s[:])
}

// ---- a standard world: keys, domains, policies and key sets of one Athenz

type World struct {
	*Athenz
	ZTSKeys, ZMSKeys map[string]*Key
	JWKeys           map[string]*Key
	Ver              int
}

const stdBase = "athenz.test/zts/v1"

func NewWorld() *World {
	w := &World{Athenz: NewAthenz(stdBase),
		ZTSKeys: map[string]*Key{"0": EC(1), "zts1": EC(2)},
		ZMSKeys: map[string]*Key{"0": EC(3), "zms1": EC(4)},
		JWKeys:  map[string]*Key{"0": EC(5), "at1": EC(6)}}
	w.ServeKeys()
	return w
}

func (w *World) ServeKeys() {
	w.Ver++
	w.Set(w.keyPath("zts"), pubKeyDoc("zts", w.ZTSKeys), fmt.Sprintf(`"zts-%d"`, w.Ver), w.Ver)
	w.Set(w.keyPath("zms"), pubKeyDoc("zms", w.ZMSKeys), fmt.Sprintf(`"zms-%d"`, w.Ver), w.Ver)
	w.Set(jwksPath, jwksDoc(w.JWKeys), "", w.Ver)
}

func (w *World) Doc(domain string, exp time.Time, pols ...[]Ass) *DocSpec {
	return &DocSpec{Domain: domain, Policies: pols, Expires: exp, Modified: time.Now().Add(-time.Hour),
		ZTS: w.ZTSKeys["zts1"], ZTSID: "zts1", ZMS: w.ZMSKeys["zms1"], ZMSID: "zms1"}
}

func (w *World) ServePolicy(d *DocSpec) {
	w.Ver++
	w.Set(policyPath(d.Domain), d.JSON(), fmt.Sprintf(`"pol-%d"`, w.Ver), w.Ver)
}

func (w *World) Options(domains []string, opts ...authorizerd.Option) []authorizerd.Option {
	return append([]authorizerd.Option{
		authorizerd.WithAthenzURL("https://" + w.Base),
		authorizerd.WithHTTPClient(w.Client(0)),
		authorizerd.WithAthenzDomains(domains...),
		authorizerd.WithPolicyRetryDelay("1s"),
		authorizerd.WithPolicyRetryAttempts(1),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil)),
		// an option given later counts
		authorizerd.WithDisablePubkeyd(), authorizerd.WithDisablePolicyd(), authorizerd.WithDisableJwkd(), authorizerd.WithDisableRoleToken(), authorizerd.WithDisableRoleCert(),
		authorizerd.WithEnablePubkeyd(), authorizerd.WithEnablePolicyd(), authorizerd.WithEnableJwkd(), authorizerd.WithEnableRoleToken(), authorizerd.WithEnableRoleCert(),
	}, opts...)
}

func (w *World) Authz(domains []string, opts ...authorizerd.Option) authorizerd.Authorizerd {
	return must(authorizerd.New(w.Options(domains, opts...)...))
}

// AccessToken is a token accepted by the world, with long life.
func (w *World) AccessToken(domain string, roles []string, sub, client string) string {
	now := time.Now().Unix()
	return AT(w.JWKeys["at1"], map[string]any{"kid": "at1"}, ATClaims(domain, roles, sub, client, now-60, now+30*86400))
}

func (w *World) RoleToken(domain string, roles []string, sub string) string {
	now := time.Now().Unix()
	return RT{Domain: domain, Roles: roles, Principal: sub, T: now - 60, E: now + 30*86400, KeyID: "zts1"}.Sign(w.ZTSKeys["zts1"])
}

// ---- reference model of decisions, written from the documentation

func lowerRunes(s string) []rune {
	var r []rune
	for _, c := range s {
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		} else if c >= 0x80 {
			c = []rune(strings.ToLower(string(c)))[0]
		}
		r = append(r, c)
	}
	return r
}

// globMatch matches by dynamic programming over runes.
func globMatch(pat, s string) bool {
	p, t := lowerRunes(pat), lowerRunes(s)
	row := make([]bool, len(t)+1)
	row[0] = true
	for _, c := range p {
		next := make([]bool, len(t)+1)
		switch c {
		case '*':
			any := false
			for j := 0; j <= len(t); j++ {
				any = any || row[j]
				next[j] = any
			}
		default:
			for j := 1; j <= len(t); j++ {
				next[j] = row[j-1] && (c == '?' || c == t[j-1])
			}
		}
		row = next
	}
	return row[len(t)]
}

type Decision int

const (
	NoMatch Decision = iota
	Deny
	Allow
)

func (d Decision) String() string { return [...]string{"no match", "deny", "allow"}[d] }

func isDeny(effect string) bool { return string(lowerRunes(effect)) == "deny" }

func (a Ass) matches(domain, role, action, resource string) bool {
	if a.Role != domain+":role."+role {
		return false
	}
	i := strings.Index(a.Resource, ":")
	if i < 0 {
		return false
	}
	return string(lowerRunes(a.Resource[:i])) == string(lowerRunes(domain)) &&
		globMatch(a.Action, action) && globMatch(a.Resource[i+1:], resource)
}

// decide is the specification of policy decisions.
func decide(asss []Ass, domain string, roles []string, action, resource string) (Decision, []string) {
	d := NoMatch
	okRoles := map[string]bool{}
	for _, r := range roles {
		for _, a := range asss {
			if a.matches(domain, r, action, resource) {
				if isDeny(a.Effect) {
					return Deny, nil
				}
				d = Allow
				okRoles[r] = true
			}
		}
	}
	return d, sortedKeys(okRoles)
}

func rootCause(err error) error {
	for err != nil {
		var n error
		if c, ok := err.(interface{ Cause() error }); ok {
			n = c.Cause()
		} else {
			n = errors.Unwrap(err)
		}
		if n == nil {
			return err
		}
		err = n
	}
	return err
}

// decisionOf maps the error of a check to a decision; ok is false for any other error.
func decisionOf(err error) (Decision, bool) {
	switch {
	case err == nil:
		return Allow, true
	case errors.Is(err, policy.ErrDenyByPolicy) || rootCause(err) == policy.ErrDenyByPolicy:
		return Deny, true
	case errors.Is(err, policy.ErrNoMatch) || rootCause(err) == policy.ErrNoMatch:
		return NoMatch, true
	}
	return NoMatch, false
}

func sortedSet(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return sortedKeys(m)
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// drainUntil lets virtual time pass so that background work of a finished case ends.
func settle(cancel context.CancelFunc) {
	cancel()
	time.Sleep(72 * time.Hour)
}

func jsonMarshal(v any) ([]byte, error) { return json.Marshal(v) }

// trimBase is the path of a URL of the standard server.
func trimBase(u string) string { return strings.TrimPrefix(u, "https://"+stdBase) }
