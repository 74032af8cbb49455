package checks

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-jose/go-jose/v4"
	"golang.org/x/oauth2"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	solidclient "zntr.io/solid/client"
	"zntr.io/solid/server/clientauthentication"
)

// scripted is one authorization server of the script.
type scripted struct {
	mu       sync.Mutex
	issuer   string
	meta     map[string]any
	reqs     []*scriptReq
	answer   map[string]func(w http.ResponseWriter, q *scriptReq) // by path below the issuer
	handlers int
}

type scriptReq struct {
	method, path, query string
	ctype               string
	body                string
	form                url.Values
	host                string
}

func (s *scripted) serve(w http.ResponseWriter, r *http.Request, sub string) {
	b, _ := io.ReadAll(io.LimitReader(r.Body, 1<<20))
	q := &scriptReq{method: r.Method, path: sub, query: r.URL.RawQuery, ctype: r.Header.Get("Content-Type"), body: string(b), host: r.Host}
	q.form, _ = url.ParseQuery(string(b))
	s.mu.Lock()
	s.reqs = append(s.reqs, q)
	f := s.answer[sub]
	s.mu.Unlock()
	if f == nil {
		w.WriteHeader(404)
		fmt.Fprint(w, `{"err":"not_found"}`)
		return
	}
	f(w, q)
}

func (s *scripted) take() []*scriptReq {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := s.reqs
	s.reqs = nil
	return out
}

// scriptHost routes to scripted servers by the first path element.
type scriptHost struct {
	base string
	m    sync.Map
	n    atomic.Int64
	errs sync.Map // path -> error for the in-memory transport
	open atomic.Int64
	seen atomic.Int64
}

// heldBody counts the bodies which were handed out and not closed yet.
type heldBody struct {
	io.ReadCloser
	h    *scriptHost
	once sync.Once
}

func (b *heldBody) Close() error {
	b.once.Do(func() { b.h.open.Add(-1) })
	return b.ReadCloser.Close()
}

// via is the transport of the client, which counts the bodies it hands out.
type via struct {
	http.RoundTripper
	h *scriptHost
}

func (v via) RoundTrip(r *http.Request) (*http.Response, error) {
	res, err := v.RoundTripper.RoundTrip(r)
	if err == nil && res.Body != nil && res.Body != http.NoBody {
		v.h.open.Add(1)
		v.h.seen.Add(1)
		res.Body = &heldBody{ReadCloser: res.Body, h: v.h}
	}
	return res, err
}

// c33Released checks that a finished call keeps no response.
func c33Released(k *kit.Case, h *scriptHost, what string) {
	n := h.open.Swap(0)
	k.Check(n == 0, "body-kept", "%d responses not released after %s", n, what)
	k.Events("responses_released", int(h.seen.Swap(0)))
}

// told is an answer which explains why it refuses.
func told(r *rand.Rand) (badAnswer, string, string) {
	code := kit.Pick(r, "invalid_client", "invalid_request", "invalid_scope", "unauthorized_client", "server_error", "x_"+kit.RandString(r, 6, "abcdefghijklmnopqrstuvwxyz"))
	desc := "because of " + kit.RandString(r, 1+r.Intn(40), kit.Alnum)
	b, _ := json.Marshal(map[string]any{kit.Pick(r, "error", "error", "err"): code, "error_description": desc, "error_uri": "https://as.example/errors"})
	return badAnswer{"error-told", raw(kit.Pick(r, 400, 401, 403, 404, 429, 500, 503), "application/json", string(b))}, code, desc
}

func c33Told(k *kit.Case, b badAnswer, err error, code, desc string) {
	if b.name != "error-told" || err == nil {
		return
	}
	k.Check(strings.Contains(err.Error(), code) && strings.Contains(err.Error(), desc), "error-lost", "the server said %s (%s), the caller is told %q", code, desc, err)
	k.Event("errors_told")
}

func (h *scriptHost) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	v, ok := h.m.Load(p[0])
	if !ok || len(p) < 2 {
		w.WriteHeader(404)
		return
	}
	v.(*scripted).serve(w, r, "/"+p[1])
}

func (h *scriptHost) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	rec := httptest.NewRecorder()
	rq := r.Clone(r.Context())
	if rq.Body == nil {
		rq.Body = http.NoBody
	}
	if rq.Host == "" {
		rq.Host = rq.URL.Host
	}
	h.ServeHTTP(rec, rq)
	res := rec.Result()
	res.Request = r
	return res, nil
}

// add makes a well-behaved server.
func (h *scriptHost) add(r *rand.Rand) *scripted {
	id := fmt.Sprintf("as%d-%s", h.n.Add(1), kit.RandString(r, 6, kit.Alnum))
	s := &scripted{issuer: h.base + "/" + id, answer: map[string]func(http.ResponseWriter, *scriptReq){}}
	tail := func(n string) string { return "/" + n + "-" + kit.RandString(r, 5, kit.Alnum) }
	s.meta = map[string]any{
		"issuer": s.issuer, "token_endpoint": s.issuer + tail("token"), "introspection_endpoint": s.issuer + tail("introspect"), "jwks_uri": s.issuer + tail("keys"),
		"authorization_endpoint": s.issuer + tail("authorize"), "scopes_supported": []string{"openid", kit.RandString(r, 5, kit.Alnum)}, "grant_types_supported": []string{"client_credentials"},
		"unknown_member": map[string]any{"x": 1},
	}
	if r.Intn(3) == 0 {
		s.meta["token_endpoint"] = s.meta["token_endpoint"].(string) + "?tenant=" + kit.RandString(r, 4, kit.Alnum)
		s.meta["introspection_endpoint"] = s.meta["introspection_endpoint"].(string) + "?tenant=" + kit.RandString(r, 4, kit.Alnum)
	}
	if r.Intn(3) == 0 { // members of extensions
		s.meta["x_extension"] = strings.Repeat("x", kit.Pick(r, 1, 6000, 100000))
	}
	s.set("/.well-known/oauth-authorization-server", func(w http.ResponseWriter, _ *scriptReq) { sendJSON(w, 200, s.meta) })
	key := kit.NewKey("c33-default", "ES256").JWK()
	s.set(s.sub("jwks_uri"), func(w http.ResponseWriter, _ *scriptReq) {
		sendJSON(w, 200, map[string]any{"keys": []any{key}})
	})
	h.m.Store(id, s)
	return s
}

func (s *scripted) sub(name string) string {
	u, _ := url.Parse(s.meta[name].(string))
	i, _ := url.Parse(s.issuer)
	return strings.TrimPrefix(u.Path, i.Path)
}

func (s *scripted) query(name string) string {
	u, _ := url.Parse(s.meta[name].(string))
	return u.RawQuery
}

func (s *scripted) set(sub string, f func(w http.ResponseWriter, q *scriptReq)) {
	s.mu.Lock()
	s.answer[sub] = f
	s.mu.Unlock()
}

func sendJSON(w http.ResponseWriter, code int, v any) {
	b, _ := json.Marshal(v)
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	_, _ = w.Write(b)
}

// badAnswer is an answer which must never be taken for a success.
type badAnswer struct {
	name string
	f    func(w http.ResponseWriter, q *scriptReq)
}

func raw(code int, ctype, body string) func(w http.ResponseWriter, q *scriptReq) {
	return func(w http.ResponseWriter, _ *scriptReq) {
		if ctype != "" {
			w.Header().Set("Content-Type", ctype)
		}
		w.WriteHeader(code)
		_, _ = io.WriteString(w, body)
	}
}

// badAnswers lists misbehaviours; good is the body of a correct answer. live allows connection faults.
func badAnswers(r *rand.Rand, good string, live bool) []badAnswer {
	status := kit.Pick(r, 400, 401, 403, 404, 405, 409, 415, 429, 500, 502, 503, 504, 300, 304, 305, 399, 599)
	big := strings.Repeat(" ", 6<<20)
	out := []badAnswer{
		{"error-status", raw(status, "application/json", kit.Pick(r, `{"error":"invalid_client","error_description":"no"}`, `{"err":"invalid_client"}`, `{}`, `null`, `[]`))},
		{"error-status-good-body", raw(status, "application/json", good)},
		{"error-status-html", raw(status, "text/html", "<html>sorry</html>")},
		{"error-status-empty", raw(status, "", "")},
		{"no-content", raw(204, "", "")},
		{"html", raw(200, "text/html", "<html>login</html>")},
		{"empty", raw(200, "application/json", "")},
		{"array", raw(200, "application/json", "["+good+"]")},
		{"string", raw(200, "application/json", `"`+kit.RandString(r, 10, kit.Alnum)+`"`)},
		{"number", raw(200, "application/json", "42")},
		{"truncated", raw(200, "application/json", good[:len(good)-1-r.Intn(len(good)-2)])},
		{"garbage", raw(200, "application/json", "\xff\xfe"+kit.Garbage(r, 100))},
		{"not-json", raw(200, "application/json", "access_token=abc&token_type=bearer")},
		{"oversized", raw(200, "application/json", big+good)},
		{"bad-gzip", func(w http.ResponseWriter, _ *scriptReq) {
			w.Header().Set("Content-Encoding", "gzip")
			_, _ = io.WriteString(w, "\x1f\x8b not gzip")
		}},
	}
	if live {
		out = append(out,
			badAnswer{"cut", func(w http.ResponseWriter, _ *scriptReq) {
				w.Header().Set("Content-Length", strconv.Itoa(len(good)+20))
				w.WriteHeader(200)
				_, _ = io.WriteString(w, good[:len(good)/2])
				panic(http.ErrAbortHandler)
			}},
			badAnswer{"cut-chunked", func(w http.ResponseWriter, _ *scriptReq) {
				w.WriteHeader(200)
				_, _ = io.WriteString(w, good[:len(good)/2])
				w.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			}},
			badAnswer{"reset", func(http.ResponseWriter, *scriptReq) { panic(http.ErrAbortHandler) }},
			badAnswer{"garbage-protocol", func(w http.ResponseWriter, _ *scriptReq) {
				c, _, err := w.(http.Hijacker).Hijack()
				if err == nil {
					_, _ = io.WriteString(c, "HTTP/9.9 nonsense\r\n\r\n")
					_ = c.Close()
				}
			}},
			badAnswer{"redirect-loop", func(w http.ResponseWriter, q *scriptReq) {
				w.Header().Set("Location", "?loop=1")
				w.WriteHeader(302)
			}})
	}
	return out
}

type c33Client struct {
	solidclient.Client
	key  *kit.Key
	opts *solidclient.Options
}

func c33Options(r *rand.Rand) (*kit.Key, *solidclient.Options) {
	key := kit.NewKey("c33-client-"+kit.Pick(r, "a", "b"), "ES384")
	jwk, _ := json.Marshal(key.PrivJWK())
	return key, &solidclient.Options{Audience: kit.Issuer(r), ClientID: "client-" + kit.RandString(r, 8, kit.Alnum), RedirectURI: "https://client.example/cb", Scopes: []string{"openid"}, JWK: jwk}
}

// c33Connect makes a client for a healthy server and checks what it asked for.
func c33Connect(k *kit.Case, s *scripted) *c33Client {
	key, opts := c33Options(k.R)
	cl, err := solidclient.HTTP(context.Background(), s.issuer, opts)
	if err != nil {
		k.Fatal("discovery-refused", "healthy server refused: %v", err)
	}
	reqs := s.take()
	first := len(reqs) > 0 && reqs[0].method == "GET" && reqs[0].path == "/.well-known/oauth-authorization-server"
	k.Check(first, "discovery-request", "first request is not the metadata query")
	for _, q := range reqs[1:] {
		k.Check(q.method == "GET" && q.path == s.sub("jwks_uri"), "discovery-request", "unexpected request %s %s", q.method, q.path)
	}
	k.Check(cl.Issuer() == s.issuer && cl.ClientID() == opts.ClientID && cl.Audience() == opts.Audience, "accessors", "issuer %q client %q audience %q", cl.Issuer(), cl.ClientID(), cl.Audience())
	want := &discoveryv1.ServerMetadata{}
	b, _ := json.Marshal(s.meta)
	if err := (protojson.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(b, want); err != nil {
		panic(err)
	}
	k.Check(proto.Equal(want, cl.ServerMetadata()), "metadata", "metadata %s, published %s", kit.Brief(cl.ServerMetadata()), b)
	return &c33Client{cl, key, opts}
}

func c33Assertion(k *kit.Case, c *c33Client) string {
	a, err := c.Assertion()
	if err != nil {
		k.Fatal("assertion", "no assertion: %v", err)
	}
	j, err := kit.DecodeAny(a, "ES384", c.key.Pub)
	if err != nil {
		k.Fatal("assertion", "assertion not signed by the key of the client: %v", err)
	}
	now := time.Now().Unix()
	exp, iat := int64(j.Num("exp")), int64(j.Num("iat"))
	k.Check(j.Str("iss") == c.opts.ClientID && j.Str("sub") == c.opts.ClientID, "assertion", "iss %q sub %q", j.Str("iss"), j.Str("sub"))
	k.Check(j.Str("aud") == c.Issuer(), "assertion-aud", "assertion addressed to %q", j.Str("aud"))
	k.Check(exp > now && exp <= now+300, "assertion-exp", "assertion valid until %d, now %d", exp, now)
	k.Check(iat <= now && iat >= now-5, "assertion-iat", "assertion issued at %d, now %d", iat, now)
	k.Check(len(j.Str("jti")) >= 8, "assertion-jti", "assertion identifier %q", j.Str("jti"))
	k.Event("assertions")
	return a
}

// c33Posted checks the single form request sent by a call.
func c33Posted(k *kit.Case, s *scripted, endpoint string, want map[string]string, optional map[string]string) {
	var reqs []*scriptReq
	for _, q := range s.take() {
		if q.path == s.sub(endpoint) {
			reqs = append(reqs, q)
		} else {
			k.Check(q.path == s.sub("jwks_uri"), "request-target", "request to %s", q.path)
		}
	}
	if !k.Check(len(reqs) >= 1, "request-target", "no request to the published %s", endpoint) {
		return
	}
	q := reqs[0]
	k.Check(q.method == "POST", "request-method", "%s %s", q.method, endpoint)
	k.Check(q.query == s.query(endpoint), "request-target", "query %q of the %s became %q", s.query(endpoint), endpoint, q.query)
	mt, _, mterr := mime.ParseMediaType(q.ctype)
	k.Check(mterr == nil && mt == "application/x-www-form-urlencoded", "request-type", "content type %q", q.ctype)
	for n, v := range want {
		k.Check(len(q.form[n]) == 1 && q.form.Get(n) == v, "request-param", "%s is %q instead of %q", n, q.form[n], v)
	}
	for n, v := range q.form {
		if _, ok := want[n]; ok {
			continue
		}
		o, ok := optional[n]
		k.Check(ok && len(v) == 1 && v[0] == o, "request-param", "unexpected parameter %s=%q", n, v)
	}
}

func c33Token(r *rand.Rand) map[string]any {
	m := map[string]any{"access_token": kit.RandString(r, 10+r.Intn(60), kit.Unreserve), "token_type": kit.Pick(r, "Bearer", "bearer", "DPoP")}
	if r.Intn(3) > 0 {
		m["expires_in"] = kit.Pick[any](r, 1, 60, 3600, 7200, 86400)
	}
	if r.Intn(2) == 0 {
		m["refresh_token"] = kit.RandString(r, 30, kit.Alnum)
	}
	if r.Intn(2) == 0 {
		m["scope"] = "openid read"
		m["extra"] = []any{1, nil, map[string]any{"a": "b"}}
	}
	return m
}

func c33Intro(r *rand.Rand) (map[string]any, *tokenv1.TokenMeta, *tokenv1.TokenConfirmation, string) {
	now := time.Now().Unix()
	m := map[string]any{"active": true}
	meta := &tokenv1.TokenMeta{}
	str := func(n string, f func(v string)) {
		if r.Intn(4) > 0 {
			v := kit.RandString(r, 1+r.Intn(30), kit.Alnum) + kit.Pick(r, "", "é", " x", "\"", "\\")
			m[n] = v
			f(v)
		}
	}
	num := func(n string, f func(v uint64)) {
		if r.Intn(4) > 0 {
			v := uint64(now) + uint64(r.Intn(100000)) - 50000
			m[n] = v
			f(v)
		}
	}
	jti := ""
	str("jti", func(v string) { jti = v })
	str("iss", func(v string) { meta.Issuer = v })
	str("sub", func(v string) { meta.Subject = v })
	str("aud", func(v string) { meta.Audience = v })
	str("client_id", func(v string) { meta.ClientId = v })
	str("scope", func(v string) { meta.Scope = v })
	str("acr", func(v string) { meta.Acr = &v })
	num("iat", func(v uint64) { meta.IssuedAt = v })
	num("nbf", func(v uint64) { meta.NotBefore = v })
	num("exp", func(v uint64) { meta.ExpiresAt = v })
	num("auth_time", func(v uint64) { meta.AuthTime = &v })
	var cnf *tokenv1.TokenConfirmation
	if r.Intn(3) == 0 {
		cnf = &tokenv1.TokenConfirmation{Jkt: kit.RandString(r, 43, kit.Alnum)}
		m["cnf"] = map[string]any{"jkt": cnf.Jkt}
	}
	if r.Intn(3) == 0 {
		m["token_type"], m["username"] = "access_token", "someone"
	}
	return m, meta, cnf, jti
}

func c33Same(a *oauth2.Token, m map[string]any, at time.Time) string {
	str := func(n string) string { s, _ := m[n].(string); return s }
	switch {
	case a == nil:
		return "no token"
	case a.AccessToken != str("access_token"):
		return fmt.Sprintf("access token %q", a.AccessToken)
	case a.TokenType != str("token_type"):
		return fmt.Sprintf("token type %q", a.TokenType)
	case a.RefreshToken != str("refresh_token"):
		return fmt.Sprintf("refresh token %q", a.RefreshToken)
	}
	e, ok := m["expires_in"].(int)
	if !ok {
		if !a.Expiry.IsZero() {
			return "expiry without expires_in"
		}
		return ""
	}
	want := at.Add(time.Duration(e) * time.Second)
	if d := a.Expiry.Sub(want); d < -3*time.Second || d > 3*time.Second {
		return fmt.Sprintf("expires_in %d announced, expiry %v is %v away", e, a.Expiry, d)
	}
	return ""
}

func c33Keys(r *rand.Rand, n int) []jose.JSONWebKey {
	var out []jose.JSONWebKey
	for i := 0; i < n; i++ {
		j := kit.NewKey(fmt.Sprintf("c33-srv-%d", r.Intn(8)), kit.Pick(r, "ES256", "ES384", "EdDSA", "RS256")).JWK()
		out = append(out, j)
	}
	return out
}

func c33SameKeys(a *jose.JSONWebKeySet, b []jose.JSONWebKey) bool {
	if a == nil || len(a.Keys) != len(b) {
		return false
	}
	x, _ := json.Marshal(a.Keys)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// c33Pad makes some genuine answers long: members nobody asked for, blanks, both.
func c33Pad(r *rand.Rand, good []byte) []byte {
	if r.Intn(3) > 0 || len(good) < 2 || good[0] != '{' {
		return good
	}
	n := kit.Pick(r, 3000, 5000, 9000, 20000, 70000, 70000, 300000, 1<<20)
	switch r.Intn(3) {
	case 0:
		return append(append([]byte{}, good...), strings.Repeat(" ", n)...)
	case 1:
		return append([]byte(strings.Repeat("\n", n)), good...)
	default:
		return append([]byte(`{"x_more":"`+strings.Repeat("x", n)+`",`), good[1:]...)
	}
}

// c33One is one conversation with a server.
func c33One(k *kit.Case, h *scriptHost, live bool) {
	r := k.R
	ctx := context.Background()
	s := h.add(r)
	c := c33Connect(k, s)
	seen := map[string]bool{}
	for step := 0; step < 8; step++ {
		a := c33Assertion(k, c)
		k.Check(!seen[a], "assertion-reused", "the same assertion twice")
		seen[a] = true
		auth := map[string]string{"client_assertion": a, "client_assertion_type": kit.AssertJWT}
		opt := map[string]string{"client_id": c.opts.ClientID, "scope": strings.Join(c.opts.Scopes, " "), "audience": c.opts.Audience, "token_type_hint": "access_token"}
		switch op := r.Intn(6); op {
		case 0, 1: // token
			want := c33Token(r)
			good, _ := json.Marshal(want)
			auth["grant_type"] = "client_credentials"
			if op == 0 {
				s.set(s.sub("token_endpoint"), raw(200, kit.Pick(r, "application/json", "application/json;charset=UTF-8", ""), string(c33Pad(r, good))))
				t0 := time.Now()
				tok, err := c.ClientCredentials(ctx, a)
				if k.Check(err == nil, "token-refused", "token answer refused: %v (%s)", err, good) {
					diff := c33Same(tok, want, t0)
					k.Check(diff == "", "token-altered", "%s instead of %s", diff, good)
				}
				k.Event("tokens")
				k.Sig("t")
			} else {
				bads := append(badAnswers(r, string(good), live),
					badAnswer{"no-token", raw(200, "application/json", kit.Pick(r, `{}`, `null`, `{"token_type":"Bearer"}`, `{"access_token":""}`, `{"access_token":null}`, `{"error":"invalid_client"}`, `{"err":"invalid_client"}`))},
					badAnswer{"wrong-type", raw(200, "application/json", kit.Pick(r, `{"access_token":12}`, `{"access_token":["a"]}`, `{"access_token":{"a":"b"}}`, `{"access_token":true}`))})
				tb, code, desc := told(r)
				b := append(bads, tb, tb)[r.Intn(len(bads)+2)]
				s.set(s.sub("token_endpoint"), b.f)
				tok, err := c.ClientCredentials(ctx, a)
				c33Told(k, b, err, code, desc)
				k.Check(err != nil && tok == nil, "token-from-"+b.name, "answer %s gave %+v, %v", b.name, tok, err)
				k.Event("bad_answers")
				k.Sig("t-%s", b.name)
			}
			c33Posted(k, s, "token_endpoint", auth, opt)
		case 2, 3: // introspection
			m, meta, cnf, jti := c33Intro(r)
			good, _ := json.Marshal(m)
			token := kit.RandString(r, 40, kit.Unreserve) + kit.Pick(r, "", "+/=", "&token=x", "%00", " é")
			auth["token"] = token
			if op == 2 {
				active := r.Intn(4) > 0
				m["active"] = active
				good, _ = json.Marshal(m)
				s.set(s.sub("introspection_endpoint"), raw(200, "application/json", string(c33Pad(r, good))))
				t, err := c.Introspect(ctx, a, token)
				if k.Check(err == nil && t != nil, "introspection-refused", "introspection answer refused: %v (%s)", err, good) {
					k.Check((t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) == active, "introspection-status", "active %v read as %v", active, t.Status)
					if active {
						k.Check(proto.Equal(t.Metadata, meta) && t.TokenId == jti && proto.Equal(t.Confirmation, cnf), "introspection-altered", "%s read as %s", good, kit.Brief(t))
					}
					k.Check(t.Value == token && t.Issuer == s.issuer, "introspection-altered", "token %q issuer %q", t.Value, t.Issuer)
				}
				k.Event("introspections")
				k.Sig("i%v%d", active, len(m))
			} else {
				bads := append(badAnswers(r, string(good), live),
					badAnswer{"wrong-type", raw(200, "application/json", kit.Pick(r, `{"active":"true","sub":"x"}`, `{"active":1}`, `{"active":true,"exp":"soon"}`, `{"active":true,"exp":-1}`, `{"active":true,"exp":1e400}`, `{"active":true,"sub":{}}`, `{"active":true,"cnf":"x"}`))})
				tb, code, desc := told(r)
				b := append(bads, tb, tb)[r.Intn(len(bads)+2)]
				s.set(s.sub("introspection_endpoint"), b.f)
				t, err := c.Introspect(ctx, a, token)
				c33Told(k, b, err, code, desc)
				k.Check(err != nil && t == nil, "introspection-from-"+b.name, "answer %s gave %s, %v", b.name, kit.Brief(t), err)
				k.Event("bad_answers")
				k.Sig("i-%s", b.name)
				if r.Intn(3) == 0 { // answers without the statement of activity
					s.set(s.sub("introspection_endpoint"), raw(200, "application/json", kit.Pick(r, `{}`, `null`, `{"sub":"x","exp":99999999999}`, `{"active":null}`, `{"error":"invalid_client"}`)))
					t, err := c.Introspect(ctx, a, token)
					k.Check(err != nil || t.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "introspection-status", "answer without activity read as active")
				}
			}
			c33Posted(k, s, "introspection_endpoint", auth, opt)
		default: // keys, never cached here: the answers carry no or a past date
			s.take()
			keys := c33Keys(r, kit.Pick(r, 1, 2, 3, 4, 4, 40))
			good, _ := json.Marshal(map[string]any{"keys": keys})
			if op == 4 {
				s.set(s.sub("jwks_uri"), raw(200, kit.Pick(r, "application/json", "application/jwk-set+json"), string(c33Pad(r, good))))
				ks, exp, err := c.PublicKeys(ctx)
				k.Check(err == nil && c33SameKeys(ks, keys) && exp == 0, "keys-altered", "keys not as published (%d): %v", exp, err)
				k.Event("key_sets")
				k.Sig("k%d", len(keys))
			} else {
				past, _ := json.Marshal(map[string]any{"keys": keys, "exp": time.Now().Unix() - int64(2+r.Intn(1000))})
				bads := append(badAnswers(r, string(good), live),
					badAnswer{"no-keys", raw(200, "application/json", kit.Pick(r, `{}`, `null`, `{"keys":[]}`, `{"keys":null}`, `{"exp":99999999999}`, `{"error":"x"}`))},
					badAnswer{"bad-keys", raw(200, "application/json", kit.Pick(r, `{"keys":{}}`, `{"keys":"x"}`, `{"keys":[1]}`, `{"keys":[{}]}`, `{"keys":[{"kty":"EC","crv":"P-256","x":"AA","y":"AA"}]}`))},
					badAnswer{"expired-keys", raw(200, "application/json", string(past))})
				tb, code, desc := told(r)
				b := append(bads, tb, tb)[r.Intn(len(bads)+2)]
				s.set(s.sub("jwks_uri"), b.f)
				ks, _, err := c.PublicKeys(ctx)
				c33Told(k, b, err, code, desc)
				k.Check(err != nil && ks == nil, "keys-from-"+b.name, "answer %s gave keys %v, %v", b.name, ks, err)
				k.Event("bad_answers")
				k.Sig("k-%s", b.name)
			}
			for _, q := range s.take() {
				k.Check(q.method == "GET" && q.path == s.sub("jwks_uri") && q.body == "", "keys-request", "%s %s", q.method, q.path)
			}
		}
		c33Released(k, h, "a call")
	}
}

// c33Discovery: metadata which must be refused.
func c33Discovery(k *kit.Case, h *scriptHost, live bool) {
	r := k.R
	s := h.add(r)
	good, _ := json.Marshal(s.meta)
	_, opts := c33Options(r)
	with := func(f func(m map[string]any)) string {
		var m map[string]any
		_ = json.Unmarshal(good, &m)
		f(m)
		b, _ := json.Marshal(m)
		return string(b)
	}
	other := h.add(r)
	bads := append(badAnswers(r, string(good), live),
		badAnswer{"issuer-other", raw(200, "application/json", with(func(m map[string]any) { m["issuer"] = other.issuer }))},
		badAnswer{"issuer-near", raw(200, "application/json", with(func(m map[string]any) {
			m["issuer"] = kit.Pick(r, s.issuer+"/", strings.ToUpper(s.issuer), s.issuer[:len(s.issuer)-1], s.issuer+"x", s.issuer+"?", s.issuer+"#", " "+s.issuer, strings.Replace(s.issuer, "http", "https", 1), kit.NearMiss(r, s.issuer))
		}))},
		badAnswer{"issuer-none", raw(200, "application/json", with(func(m map[string]any) { delete(m, "issuer") }))},
		badAnswer{"issuer-type", raw(200, "application/json", with(func(m map[string]any) { m["issuer"] = []string{s.issuer} }))},
		badAnswer{"null", raw(200, "application/json", "null")},
		badAnswer{"jwks-none", raw(200, "application/json", with(func(m map[string]any) { delete(m, "jwks_uri") }))},
		badAnswer{"jwks-bad", raw(200, "application/json", with(func(m map[string]any) { m["jwks_uri"] = kit.Pick(r, "://", "%zz", "ht tp://x", s.issuer+"/missing") }))},
	)
	b := bads[r.Intn(len(bads))]
	if b.name == "oversized" { // nothing is promised on the size of the metadata
		b = bads[0]
	}
	s.set("/.well-known/oauth-authorization-server", b.f)
	cl, err := solidclient.HTTP(context.Background(), s.issuer, opts)
	k.Check(err != nil && cl == nil, "discovery-"+b.name, "metadata answer %s accepted: %v", b.name, err)
	for _, q := range other.take() {
		k.Fail("discovery-crossed", "request %s sent to another server", q.path)
	}
	// unreachable keys make the client unusable
	s2 := h.add(r)
	kb := badAnswers(r, string(good), live)
	x := kb[r.Intn(len(kb))]
	s2.set(s2.sub("jwks_uri"), x.f)
	cl, err = solidclient.HTTP(context.Background(), s2.issuer, opts)
	k.Check(err != nil && cl == nil, "discovery-keys-"+x.name, "client made although the keys answer is %s: %v", x.name, err)
	c33Released(k, h, "a refused discovery")
	k.Event("discovery_refused")
	k.Sig("d-%s-%s", b.name, x.name)
}

func c33Net(c *kit.Ctx) {
	h := &scriptHost{}
	srv := httptest.NewUnstartedServer(h)
	srv.Config.ErrorLog = nil
	srv.Start()
	h.base = srv.URL
	http.DefaultClient.Transport = via{http.DefaultTransport, h}
	c.Require("errors_told", 40)
	c.Require("responses_released", 1000)
	c.Require("tokens", 150)
	c.Require("introspections", 150)
	c.Require("key_sets", 100)
	c.Require("bad_answers", 500)
	c.Require("discovery_refused", 100)
	c.Require("cancelled", 20)
	for i := 0; i < c.N(250, 5000); i++ {
		c.Case(fmt.Sprintf("talk/%d", i), func(k *kit.Case) { c33One(k, h, true) })
		c.Case(fmt.Sprintf("discovery/%d", i), func(k *kit.Case) { c33Discovery(k, h, true) })
	}
	// cancellation while the server does not answer, and servers which are not there
	for i := 0; i < c.N(12, 100); i++ {
		c.Case(fmt.Sprintf("cancel/%d", i), func(k *kit.Case) {
			s := h.add(k.R)
			cl := c33Connect(k, s)
			a := c33Assertion(k, cl)
			release := make(chan struct{})
			defer close(release)
			hang := func(w http.ResponseWriter, _ *scriptReq) {
				if k.R.Intn(2) == 0 {
					w.WriteHeader(200)
					w.(http.Flusher).Flush()
				}
				<-release
			}
			for _, e := range []string{"token_endpoint", "introspection_endpoint", "jwks_uri"} {
				s.set(s.sub(e), hang)
			}
			for n, call := range []func(ctx context.Context) error{
				func(ctx context.Context) error { _, err := cl.ClientCredentials(ctx, a); return err },
				func(ctx context.Context) error { _, err := cl.Introspect(ctx, a, "x"); return err },
				func(ctx context.Context) error { _, _, err := cl.PublicKeys(ctx); return err },
			} {
				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
				t0 := time.Now()
				err := call(ctx)
				cancel()
				k.Check(err != nil, "cancel", "call %d succeeded without an answer", n)
				k.Check(time.Since(t0) < 20*time.Second, "cancel", "call %d answered %s after its deadline", n, time.Since(t0))
				k.Event("cancelled")
			}
			// gone server
			dead := httptest.NewServer(http.NotFoundHandler())
			u := dead.URL
			dead.Close()
			_, opts := c33Options(k.R)
			cl2, err := solidclient.HTTP(context.Background(), u, opts)
			k.Check(err != nil && cl2 == nil, "discovery-dead", "client made for a server which is not there")
			k.Sig("cancel %d", i)
		})
	}
	// keys of the client
	for i := 0; i < c.N(60, 1000); i++ {
		c.Case(fmt.Sprintf("jwk/%d", i), func(k *kit.Case) {
			s := h.add(k.R)
			_, opts := c33Options(k.R)
			kind := kit.Pick(k.R, "junk", "empty", "public", "p256", "rsa", "null", "mutated")
			switch kind {
			case "junk":
				opts.JWK = []byte(kit.Garbage(k.R, 60))
			case "empty":
				opts.JWK = nil
			case "null":
				opts.JWK = []byte("null")
			case "public":
				opts.JWK, _ = json.Marshal(kit.NewKey("c33-client-a", "ES384").JWK())
			case "p256":
				opts.JWK, _ = json.Marshal(kit.NewKey("c33-p256", "ES256").PrivJWK())
			case "rsa":
				opts.JWK, _ = json.Marshal(kit.NewKey("c33-rsa", "RS256").PrivJWK())
			case "mutated":
				opts.JWK = kit.MutateBytes(k.R, opts.JWK)
			}
			cl, err := solidclient.HTTP(context.Background(), s.issuer, opts)
			if err != nil {
				return
			}
			a, err := cl.Assertion()
			k.Event("odd_keys")
			if err == nil {
				var priv jose.JSONWebKey
				if e := json.Unmarshal(opts.JWK, &priv); e != nil {
					k.Fatal("assertion-key", "assertion made with an undecodable key (%s)", kind)
				}
				j, e := jose.ParseSigned(a, allAlgs())
				if e == nil {
					_, e = j.Verify(priv.Public())
				}
				// halves which do not belong together are the caller's mistake
				if ec, ok := priv.Key.(*ecdsa.PrivateKey); ok && e != nil {
					if x, y := ec.Curve.ScalarBaseMult(ec.D.Bytes()); x.Cmp(ec.X) != 0 || y.Cmp(ec.Y) != 0 {
						return
					}
				}
				k.Check(e == nil, "assertion-key", "assertion with a %s key does not verify: %v", kind, e)
			} else {
				k.Check(a == "", "assertion-key", "assertion and error together")
			}
			k.Sig("jwk %s %v", kind, err == nil)
		})
	}
}

// c33Clock: the cache of keys in virtual time, over an in-memory transport.
func c33Clock(c *kit.Ctx) {
	h := &scriptHost{base: "http://as.example"}
	http.DefaultTransport = via{h, h}
	http.DefaultClient.Transport = via{h, h}
	c.Require("cache_reads", 2000)
	c.Require("server_refreshed", 200)
	for i := 0; i < c.N(400, 10000); i++ {
		c.Case(fmt.Sprintf("cache/%d", i), func(k *kit.Case) {
			r := k.R
			ctx := context.Background()
			s := h.add(r)
			type served struct {
				keys []jose.JSONWebKey
				exp  int64
			}
			var hist []served
			var mode string
			serve := func(w http.ResponseWriter, _ *scriptReq) {
				switch mode {
				case "error":
					w.WriteHeader(503)
					return
				case "empty":
					sendJSON(w, 200, map[string]any{"keys": []any{}})
					return
				}
				v := served{keys: c33Keys(r, 1+r.Intn(3))}
				m := map[string]any{"keys": v.keys}
				if r.Intn(5) > 0 {
					v.exp = time.Now().Unix() + int64(kit.Pick(r, 1, 2, 5, 30, 60, 600))
					m["exp"] = v.exp
				}
				hist = append(hist, v)
				sendJSON(w, 200, m)
			}
			s.set(s.sub("jwks_uri"), serve)
			c := c33Connect(k, s)
			for step := 0; step < 25; step++ {
				d := kit.Pick(r, 0, time.Millisecond, 500*time.Millisecond, time.Second, 4*time.Second, 29*time.Second, time.Minute, 9*time.Minute)
				if last := hist[len(hist)-1]; r.Intn(3) == 0 && last.exp > time.Now().Unix() { // around the end of the cached set
					d = time.Until(time.Unix(last.exp, 0)) + kit.Pick(r, -time.Second-time.Millisecond, -time.Second+time.Millisecond, -time.Millisecond, time.Millisecond, time.Second)
				}
				if d > 0 {
					time.Sleep(d)
				}
				mode = kit.Pick(r, "good", "good", "good", "error", "empty")
				before := len(hist)
				prev := hist[before-1]
				ks, exp, err := c.PublicKeys(ctx)
				k.Event("cache_reads")
				now := time.Now().Unix()
				if err != nil {
					k.Check(ks == nil, "cache-error", "keys along with an error")
					k.Check(mode != "good", "cache-refused", "keys refused although the server publishes some: %v", err)
					continue
				}
				last := hist[len(hist)-1]
				if len(hist) > before {
					k.Event("server_refreshed")
				} else {
					k.Check(prev.exp > now || prev.exp == now, "cache-stale", "keys reused %d s after their end", now-prev.exp)
				}
				k.Check(c33SameKeys(ks, last.keys) && exp == uint64(last.exp), "cache-keys", "keys (exp %d) are not those last published (exp %d)", exp, last.exp)
				k.Sig("%v%s%d", d, mode[:1], len(hist))
			}
		})
		if i%4 == 0 {
			c.Case(fmt.Sprintf("mem/%d", i), func(k *kit.Case) { c33One(k, h, false) })
		}
	}
}

// c33Shared: one client, many goroutines; answers name the question.
func c33Shared(c *kit.Ctx) {
	h := &scriptHost{}
	srv := httptest.NewServer(h)
	h.base = srv.URL
	http.DefaultClient.Transport = via{http.DefaultTransport, h}
	ctx := context.Background()
	c.Require("shared_calls", 1000)
	for i := 0; i < c.N(25, 400); i++ {
		c.Case(fmt.Sprintf("shared/%d", i), func(k *kit.Case) {
			s := h.add(k.R)
			var gen atomic.Int64
			sets := [][]jose.JSONWebKey{c33Keys(k.R, 1), c33Keys(k.R, 2), c33Keys(k.R, 3)}
			s.set(s.sub("jwks_uri"), func(w http.ResponseWriter, _ *scriptReq) {
				n := gen.Add(1)
				m := map[string]any{"keys": sets[n%3]}
				if n%2 == 0 {
					m["exp"] = time.Now().Unix() + 1
				}
				sendJSON(w, 200, m)
			})
			s.set(s.sub("token_endpoint"), func(w http.ResponseWriter, q *scriptReq) {
				sendJSON(w, 200, map[string]any{"access_token": "for-" + q.form.Get("client_assertion"), "token_type": "Bearer"})
			})
			s.set(s.sub("introspection_endpoint"), func(w http.ResponseWriter, q *scriptReq) {
				sendJSON(w, 200, map[string]any{"active": true, "sub": "of-" + q.form.Get("token"), "jti": q.form.Get("client_assertion")})
			})
			cl := c33Connect(k, s)
			var wg sync.WaitGroup
			var jtis sync.Map
			for g := 0; g < 8; g++ {
				g := g
				k.Go(&wg, func() {
					for n := 0; n < 8; n++ {
						a := c33Assertion(&kit.Case{Ctx: k.Ctx, Label: k.Label, R: k.Rng(fmt.Sprint(k.Label, g, n))}, cl)
						if _, dup := jtis.LoadOrStore(a, true); dup {
							k.Fail("assertion-reused", "two goroutines obtained the same assertion")
						}
						tok, err := cl.ClientCredentials(ctx, a)
						k.Check(err == nil && tok.AccessToken == "for-"+a, "shared-token", "answer of another question: %v", err)
						q := fmt.Sprintf("tok-%d-%d", g, n)
						t, err := cl.Introspect(ctx, a, q)
						k.Check(err == nil && t.GetMetadata().GetSubject() == "of-"+q && t.TokenId == a && t.Value == q, "shared-introspection", "answer of another question: %v", err)
						ks, _, err := cl.PublicKeys(ctx)
						ok := false
						for _, x := range sets {
							ok = ok || c33SameKeys(ks, x)
						}
						k.Check(err == nil && ok, "shared-keys", "keys never published: %v", err)
						k.Events("shared_calls", 3)
					}
				})
			}
			wg.Wait()
			c33Released(k, h, "concurrent calls")
			k.Sig("shared %d", i)
		})
	}
}

// c33Accepted: the server side of this repository accepts the assertions of the client.
func c33Accepted(c *kit.Ctx) {
	h := &scriptHost{base: "http://as.example"}
	http.DefaultTransport = via{h, h}
	http.DefaultClient.Transport = via{h, h}
	c.Require("authenticated", 50)
	for i := 0; i < c.N(80, 1500); i++ {
		c.Case(fmt.Sprintf("accepted/%d", i), func(k *kit.Case) {
			w := kit.NewWorld(kit.NewStores("verifiable"), nil)
			s := h.add(k.R)
			key, opts := c33Options(k.R)
			reg := w.Client(func(c *clientv1.Client) {
				c.Jwks = kit.JWKS(key.JWK())
				c.TokenEndpointAuthMethod = "private_key_jwt"
			})
			opts.ClientID = reg.ClientId
			cl, err := solidclient.HTTP(context.Background(), s.issuer, opts)
			if err != nil {
				k.Fatal("discovery-refused", "%v", err)
			}
			a, err := cl.Assertion()
			if err != nil {
				k.Fatal("assertion", "%v", err)
			}
			p := clientauthentication.PrivateKeyJWT(w.S.Clients, allAlgs())
			res, err := p.Authenticate(context.Background(), &clientv1.AuthenticateRequest{ClientAssertion: kit.Str(a), ClientAssertionType: kit.Str(kit.AssertJWT)})
			k.Check(err == nil && res.GetClient().GetClientId() == reg.ClientId, "assertion-unusable", "the server refuses the assertion of the client: %v", err)
			k.Event("authenticated")
			time.Sleep(time.Duration(301+k.R.Intn(1000)) * time.Second)
			_, err = p.Authenticate(context.Background(), &clientv1.AuthenticateRequest{ClientAssertion: kit.Str(a), ClientAssertionType: kit.Str(kit.AssertJWT)})
			k.Check(err != nil, "assertion-outlives", "assertion accepted long after its issuance")
			k.Sig("accepted %d", i)
		})
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C33", Level: "exploration",
		Rule:        "conversations of the HTTP client with scripted servers (real loopback connections and an in-memory transport in virtual time) answering well, badly or not at all; distinct by the sequence of calls and kinds of answers",
		Assumptions: []string{"redirections by the server are followed as net/http does", "whether still valid keys are refreshed early is not judged", "statuses in 201..299 with a good body are not judged", "the size of the metadata document is not judged"},
		Modes: []kit.Mode{
			{Name: "net", Run: c33Net},
			{Name: "clock", Bubble: true, Run: c33Clock},
			{Name: "accepted", Bubble: true, Run: c33Accepted},
			{Name: "race", Race: true, Run: c33Shared},
		},
	})
}
