package checks

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C04", Level: "exploration",
		Rule: "requests built from a valid one by 0 to 3 deviations (missing, boundary length, near-miss, unsupported or unregistered values) for random client registrations, given to authorize and to the pushed endpoint; " +
			"verdict and error predicted by the rules of the property; storage writes observed by hooks. Non-trivial: distinct set of deviations x registration x endpoint.",
		Assumptions: []string{"with several deviations any of their documented errors is accepted"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c04}},
	})
}

func subset(r *rand.Rand, xs ...string) []string {
	var out []string
	for _, x := range xs {
		if r.Intn(3) > 0 {
			out = append(out, x)
		}
	}
	return out
}

func has(xs []string, x string) bool {
	for _, v := range xs {
		if v == x {
			return true
		}
	}
	return false
}

func c04(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 300)
	c.Require("refused", 1000)
	c.Require("reregistered", 500)
	var writes atomic.Int32
	hook := func(ctx context.Context, op string, do func() error) error {
		if op == "codes.Register" || op == "authreqs.Register" || op == "tokens.Create" || op == "devices.Register" {
			writes.Add(1)
		}
		return do()
	}
	w := kit.NewWorld(kit.NewStores("verifiable"), hook)
	// scope words may be separated by any white space
	for i := 0; i < c.N(200, 5000); i++ {
		c.Case(fmt.Sprintf("separators/%d", i), func(k *kit.Case) {
			r := k.R
			cl := w.Client(nil)
			words := []string{"openid", "offline_access", kit.Pick(r, "profile", "read", "offline_access", "é")}
			r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
			sep := func() string {
				return kit.Pick(r, " ", "  ", "\t", "\n", "\r\n", " \t ", "\v", "\f", "\u00a0", "\u2003", "\u0085", ",")
			}
			scope := kit.Pick(r, "", "", sep()) + words[0] + sep() + words[1] + sep() + words[2] + kit.Pick(r, "", "", sep())
			ar, v := kit.AuthReq(r, cl, scope)
			ar.Prompt = kit.Pick(r, nil, nil, kit.Str("none"), kit.Str("login"), kit.Str("consent"))
			res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: "https://as.example", Subject: "alice", Client: cl, Request: ar})
			k.Sig("%q %v", scope, err == nil)
			if err != nil {
				k.Check(res == nil || res.Code == "", "invalid-accepted", "refused with code: %v", res)
				return
			}
			tr, err := w.Token.Token(ctx, kit.CodeReq("https://as.example", cl, res.Code, ar.RedirectUri, v))
			if !k.Check(kit.Granted(tr, err), "redeem", "code of scope %q not redeemable: %v", scope, err) {
				return
			}
			c.Event("accepted")
			granted := strings.Fields(tr.AccessToken.Metadata.Scope)
			for _, g := range granted {
				k.Check(has(strings.Fields(scope), g), "scope", "requested %q, granted %q", scope, tr.AccessToken.Metadata.Scope)
			}
			if ar.GetPrompt() != "consent" {
				if has(strings.Fields(scope), "openid") {
					k.Check(!has(granted, "offline_access"), "scope", "requested %q prompt %q, granted %q", scope, ar.GetPrompt(), tr.AccessToken.Metadata.Scope)
				}
				k.Check(tr.RefreshToken == nil, "refresh", "requested %q prompt %q, got a refresh token", scope, ar.GetPrompt())
			}
		})
	}
	n := c.N(12000, 200000)
	for i := 0; i < n; i++ {
		c.Case(fmt.Sprintf("req/%d", i), func(k *kit.Case) {
			r := k.R
			iss := kit.Issuer(r)
			uris := []string{"https://client.example/cb", "https://client.example/Other", "com.example.app:/cb", "http://127.0.0.1:8085/cb?a=b", "https://client.example/cb%2Fx"}
			r.Shuffle(len(uris), func(i, j int) { uris[i], uris[j] = uris[j], uris[i] })
			uris = uris[:kit.Pick(r, 1, 1, 2, len(uris), len(uris))]
			full := r.Intn(3) > 0
			cl := w.Client(func(c *clientv1.Client) {
				c.RedirectUris = uris
				if !full {
					c.GrantTypes = subset(r, kit.AllGrants...)
					c.ResponseTypes = subset(r, "code", "token")
					c.ResponseModes = subset(r, "query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt")
				}
			})
			warm := r.Intn(3) == 0
			if warm { // it was registered otherwise before
				was := kit.Clone(cl)
				was.GrantTypes, was.ResponseTypes, was.ResponseModes = kit.AllGrants, []string{"code", "token"}, []string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt"}
				was.RedirectUris = append([]string{"https://evil.example/cb", "https://client.example/Other"}, uris...)
				w.SetClient(was)
				for _, u := range was.RedirectUris {
					ar, _ := kit.AuthReq(r, was, "openid")
					ar.RedirectUri = u
					_, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "sub", Client: was, Request: ar})
					_, perr := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: was, Request: ar})
					k.Check(err == nil && perr == nil, "valid-refused", "former registration: %v %v", err, perr)
				}
				w.SetClient(cl)
				c.Event("reregistered")
			}
			ar, v := kit.AuthReq(r, cl, kit.Pick(r, "openid", "openid offline_access", "openid profile offline_access", "read write", "offline_access", "offline_access openid offline_access"))
			ar.Prompt = kit.Pick(r, nil, kit.Str("consent"), kit.Str("consent"), kit.Str("login"), kit.Str("none"), kit.Str("none"), kit.Str("select_account"), kit.Str(""), kit.Str(" "), kit.Str("consent login"), kit.Str("login consent"), kit.Str("Consent"), kit.Str("consent2"))
			ar.ResponseMode = kit.Pick(r, nil, kit.Str("query"), kit.Str("fragment"), kit.Str("form_post"), kit.Str("jwt"), kit.Str("query.jwt"), kit.Str("fragment.jwt"), kit.Str("form_post.jwt"))
			ar.ResponseType = kit.Pick(r, "code", "code", "token")
			// valid boundary values
			switch r.Intn(7) {
			case 5:
				ar.State = kit.RandString(r, 32+r.Intn(9), kit.Alnum) + kit.Pick(r, "=", "==", "/", "?", "#x", "&a=b", ".", "%", "\"", "'", "<b>", ";", ",", "~", "\\", "+", "*")
				ar.Nonce = kit.RandString(r, 8+r.Intn(9), kit.Alnum) + kit.Pick(r, "=", "==", "/", "?", "#x", "&a=b", ".", "%", "\"", "'", "<b>", ";", ",", "~", "\\", "+", "*")
			case 6:
				ar.State = kit.Pick(r, "=", "/", "?", "#x", "&a=b", ".", "%", "\"", "'", "<b>", ";", "0", "~", "\\", "+", "*", "{", "[") + kit.RandString(r, 32+r.Intn(9), kit.Alnum)
			case 0:
				ar.State = kit.RandString(r, 32, kit.Alnum)
			case 1:
				ar.State = strings.Repeat("é", 16)
			case 2:
				ar.Nonce = kit.RandString(r, 8, kit.Alnum)
			case 3:
				ar.State = kit.RandString(r, 500, kit.Alnum)
			case 4:
				ar.State = kit.Pick(r, strings.Repeat(" ", 32), " "+kit.RandString(r, 31, kit.Alnum), kit.RandString(r, 31, kit.Alnum)+"\n", strings.Repeat("\x00", 40), "%20"+kit.RandString(r, 29, kit.Alnum))
				ar.Nonce = kit.Pick(r, ar.Nonce, strings.Repeat(" ", 8), strings.Repeat("ü", 4))
			}
			if r.Intn(4) == 0 { // optional fields are irrelevant
				kit.Decorate(r, ar)
			}
			var dev []string
			codes := map[string]bool{}
			add := func(what string, errs ...string) {
				dev = append(dev, what)
				for _, e := range errs {
					codes[e] = true
				}
			}
			par := r.Intn(2) == 0
			subject := "sub"
			client := cl
			nilReq, nilInner, foreign := false, false, false
			validState := true
			for d := kit.Pick(r, 0, 0, 1, 1, 1, 1, 2, 3); d > 0; d-- {
				switch r.Intn(21) {
				case 0:
					ar.State = kit.Pick(r, "", "x", kit.RandString(r, 31, kit.Alnum))
					validState = false
					add(fmt.Sprintf("state%d", len(ar.State)), "invalid_request")
				case 1:
					ar.Scope = ""
					add("scope", "invalid_request")
				case 2:
					ar.ResponseType = kit.Pick(r, "", "id_token", "CODE", "code ", "code token", "none", "co", "token ", "Token", "password")
					add("response_type:"+ar.ResponseType, "invalid_request")
				case 3:
					ar.ClientId = kit.Pick(r, "", w.NoClient(r, cl.ClientId))
					add("client_id", "invalid_request")
				case 4:
					j := r.Intn(1000)
					ms := kit.NearMisses(ar.RedirectUri)
					ar.RedirectUri = ms[j%len(ms)]
					if has(uris, ar.RedirectUri) || (ar.RedirectUri == "https://client.example/Other") {
						ar.RedirectUri = "https://evil.example/cb"
					}
					add(fmt.Sprintf("redirect#%d", j%len(ms)), "invalid_request")
				case 5:
					ar.CodeChallenge = kit.Pick(r, "", ar.CodeChallenge+"A", ar.CodeChallenge[:42%(len(ar.CodeChallenge)+1)], ar.CodeChallenge+"=", "é")
					if len(ar.CodeChallenge) == 43 {
						ar.CodeChallenge = ""
					}
					add(fmt.Sprintf("challenge%d", len(ar.CodeChallenge)), "invalid_request")
				case 6:
					ar.CodeChallengeMethod = kit.Pick(r, "", "plain", "s256", "S512", "S256 ", "S25")
					add("method:"+ar.CodeChallengeMethod, "invalid_request")
				case 7:
					ar.Audience = ""
					add("audience", "invalid_request")
				case 8:
					ar.Nonce = kit.Pick(r, "", "a", "1234567")
					add(fmt.Sprintf("nonce%d", len(ar.Nonce)), "invalid_request")
				case 9:
					ar.ResponseMode = kit.Str(kit.Pick(r, "", "web_message", "JWT", "query.JWT", "query ", "code", "jwt.jwt", "fragment_jwt"))
					add("response_mode:"+*ar.ResponseMode, "invalid_request")
				case 10:
					iss = ""
					add("issuer", "invalid_request")
				case 11:
					if !par {
						subject = ""
						add("subject", "invalid_request")
					}
				case 12:
					if par || r.Intn(2) == 0 {
						client = w.Client(nil)
						add("authclient", "invalid_request")
					}
				case 13:
					if par {
						client = nil
						add("noclient", "invalid_request")
					}
				case 14:
					nilReq = true
					add("nil", "invalid_request")
				case 15:
					nilInner = true
					add("nilinner", "invalid_request")
				case 16:
					ar.RedirectUri = kit.Pick(r, "not a uri", "client.example/cb", "", "https://client.example/other", "HTTPS://client.example/cb")
					add("redirect:"+ar.RedirectUri, "invalid_request")
				case 17:
					if warm {
						w.RemoveClient(cl.ClientId)
						add("gone", "invalid_request")
					}
				default:
				}
			}
			// registration rules, for the client named by the request
			if ar.ClientId == cl.ClientId {
				if !has(cl.GrantTypes, kit.GrantCode) {
					add("grant", "unsupported_grant_type")
				}
				if !has(cl.ResponseTypes, ar.ResponseType) {
					add("client-response-type", "invalid_request")
				}
				mode := ar.GetResponseMode()
				if mode == "jwt" {
					mode = map[string]string{"code": "query.jwt", "token": "fragment.jwt"}[ar.ResponseType]
				}
				if ar.ResponseMode != nil && !has(cl.ResponseModes, mode) {
					add("client-response-mode", "invalid_request")
				}
			}
			wantMode := ar.GetResponseMode()
			if wantMode == "jwt" {
				wantMode = map[string]string{"code": "query.jwt", "token": "fragment.jwt"}[ar.ResponseType]
			}
			writes.Store(0)
			var (
				err   error
				perr  *kit.E
				issue string
				res   *flowv1.AuthorizeResponse
				isNil bool
			)
			in := kit.Clone(ar)
			if nilInner {
				in = nil
			}
			if par {
				req := &flowv1.RegistrationRequest{Issuer: iss, Client: client, Request: in}
				if nilReq {
					req = nil
				}
				var rr *flowv1.RegistrationResponse
				rr, err = w.Authz.Register(ctx, req)
				isNil = rr == nil
				perr, issue = rr.GetError(), rr.GetRequestUri()
			} else {
				req := &flowv1.AuthorizeRequest{Issuer: iss, Client: client, Subject: subject, Request: in}
				if client == cl && r.Intn(2) == 0 {
					req.Client = nil
				} else if ar.ClientId != cl.ClientId {
					foreign = true // refused before the request itself is examined
				}
				if nilReq {
					req = nil
				}
				res, err = w.Authz.Authorize(ctx, req)
				isNil = res == nil
				perr, issue = res.GetError(), res.GetCode()
			}
			k.Log("par=%v deviations %v request %s -> %q %v %v", par, dev, kit.Brief(ar), issue, perr, err)
			k.Sig("%v %v %v %v %v %v", par, dev, ar.ResponseType, ar.GetResponseMode(), ar.GetPrompt(), ar.Scope)
			if len(dev) == 0 {
				if err != nil || issue == "" || perr != nil {
					k.Fail("valid-refused", "valid request refused: %v %v", perr, err)
					return
				}
				c.Event("accepted")
				k.Check(writes.Load() == 1, "writes", "%d artifacts stored", writes.Load())
				if par {
					return
				}
				k.Check(res.State == ar.State && res.ClientId == cl.ClientId && res.RedirectUri == ar.RedirectUri && res.Issuer == iss && res.ResponseMode == wantMode && res.ExpiresIn == 60,
					"response", "answered %s", kit.Brief(res))
				tr, err := w.Token.Token(ctx, kit.CodeReq(iss, cl, res.Code, ar.RedirectUri, v))
				if !kit.Granted(tr, err) {
					k.Fail("redeem", "code not redeemable: %v", err)
					return
				}
				k.Check(tr.AccessToken.Metadata.Scope == effectiveScope(ar), "scope", "requested %q prompt %q, granted %q", ar.Scope, ar.GetPrompt(), tr.AccessToken.Metadata.Scope)
				return
			}
			c.Event("refused")
			if err == nil || isNil || issue != "" || perr == nil {
				k.Fail("invalid-accepted", "deviations %v: issued %q error %v %v", dev, issue, perr, err)
				return
			}
			k.Check(codes[perr.Err], "error-code", "deviations %v: error %q", dev, perr.Err)
			k.Check(writes.Load() == 0, "stored", "refused request (%v) stored %d artifacts", dev, writes.Load())
			if res != nil {
				k.Check(res.State == "" && res.RedirectUri == "" || res.Code == "", "leak", "%s", kit.Brief(res))
			}
			early := foreign || nilReq || nilInner || iss == "" || client == nil || (subject == "" && !par) || (client != cl)
			if validState && !early {
				k.Check(perr.State != nil && *perr.State == ar.State, "error-state", "deviations %v: error state %v", dev, perr.State)
			}
		})
	}
}
