//go:build go1.21

// H01: with credentials configured nothing is served without them.
package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"reflect"
	"strings"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/zz_verif/vapi"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const now = 1000 * 3600 * 1e9

func record() []byte {
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		panic(err)
	}
	for i := 0; i < 10; i++ {
		d.Observe(float64(i))
	}
	rec := data.Record{StartTime: now - 7200e9, EndTime: now - 3600e9, Observations: 10, Distribution: d.Marshal(nil), Kind: d.Kind(), Merged: 1}
	buf, err := rec.Marshal()
	if err != nil {
		panic(err)
	}
	return buf
}

var stored = record()

func newDB() *vapi.DB {
	return &vapi.DB{
		Names: []string{"secret.metric.one", "secret.metric.two"},
		Recs:  map[string][]vapi.Rec{"secret.metric.one": {{now - 7200e9, now - 3600e9, stored}}},
	}
}

type config struct{ user, pass, origin string }

var configs = []config{
	{"", "", ""},
	{"", "", "http://origin.example"},
	{"user", "pa:ss", ""},
	{"user", "", "http://origin.example"},
	{"us\x00er", "pässwört \xff", "null"},
	{"u", strings.Repeat("p", 200), ""},
}

var methods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "get", "", "GET "}

var paths = []string{"/", "", "/api/render", "/api/query", "/api/nonce", "/api/render/", "//api/query", "/API/query", "/api", "/index.html", "/js/main.js", "/missing", "/../api/query", "*"}

var queries = []string{"", "metric=secret.metric.one&now=3600000000000000&query=secret", "username=user&password=pa:ss"}

func basic(s string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(s)) }

// credentials are the values of Authorization, the first is right.
func credentials(c config, deep bool) (out [][]string) {
	u, p := c.user, c.pass
	add := func(v ...string) { out = append(out, v) }
	add(basic(u + ":" + p))
	add()
	add("")
	add("Basic")
	add("Basic ")
	add("Basic :")
	add("basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
	add("BASIC " + base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
	add("Basic  " + base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
	add("Basic " + base64.RawStdEncoding.EncodeToString([]byte(u+":"+p)))
	add("Basic " + base64.URLEncoding.EncodeToString([]byte(u+":"+p)))
	add("Basic " + u + ":" + p)
	add("Bearer " + base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
	add("Digest username=" + u)
	add(base64.StdEncoding.EncodeToString([]byte(u + ":" + p)))
	add(basic(u + ":" + p)[1:])
	add(basic(":"))
	add(basic(""))
	add(basic(u))
	add(basic(u + ":"))
	add(basic(":" + p))
	add(basic(p + ":" + u))
	add(basic(u + ":" + u))
	add(basic(p + ":" + p))
	add(basic(u + p + ":"))
	add(basic(":" + u + p))
	add(basic(u + ":" + p + " "))
	add(basic(u + ":" + p + "\x00"))
	add(basic(u + " :" + p))
	add(basic(" " + u + ":" + p))
	add(basic(u + "::" + p))
	add(basic(u + ":" + p + ":"))
	add(basic(u + "\x00:" + p))
	add(basic(strings.ToUpper(u) + ":" + p))
	add(basic(u + ":" + strings.ToUpper(p)))
	add(basic("admin:admin"))
	add(basic("user:pa"))
	add(basic(strings.Repeat("u", 5000) + ":" + p))
	add(basic(u+":wrong"), basic(u+":"+p))
	add(basic(u+":"+p), basic(u+":wrong"))
	add("Basic %%%")
	if deep {
		s := u + ":" + p
		for i := range s {
			add(basic(s[:i]))
			add(basic(s[i:]))
			add(basic(s[:i] + s[i+1:]))
			add(basic(s[:i] + ":" + s[i:]))
			for b := 0; b < 8; b++ {
				x := []byte(s)
				x[i] ^= 1 << b
				add(basic(string(x)))
			}
		}
		e := basic(s)
		for i := range e {
			add(e[:i])
			for b := 0; b < 8; b++ {
				x := []byte(e)
				x[i] ^= 1 << b
				add(string(x))
			}
		}
	}
	return out
}

// allowed is the reference for what the header means.
func allowed(c config, auth []string) bool {
	if c.user == "" {
		return true
	}
	if len(auth) == 0 {
		return false
	}
	scheme, rest, ok := strings.Cut(auth[0], " ")
	if !ok || strings.ToLower(scheme) != "basic" {
		return false
	}
	for _, r := range scheme {
		if r > 127 {
			return false
		}
	}
	b, err := base64.StdEncoding.DecodeString(rest)
	if err != nil {
		return false
	}
	colon := strings.IndexByte(string(b), ':')
	return colon >= 0 && string(b[:colon]) == c.user && string(b[colon+1:]) == c.pass
}

type server struct {
	h      *api.Server
	db     *vapi.DB
	static *vapi.Static
}

func newServer(c config, static bool) *server {
	s := &server{db: newDB(), static: &vapi.Static{}}
	var h http.Handler
	if static {
		h = s.static
	}
	s.h = api.New(s.db, h, api.Options{Origin: c.origin, Username: c.user, Password: c.pass})
	return s
}

func (s *server) calls() int { return s.db.Calls() + s.static.Calls }

func (s *server) nonce(c config) string {
	req := vapi.Request("GET", "/api/nonce", "")
	if c.user != "" {
		req.Header.Set("Authorization", basic(c.user+":"+c.pass))
	}
	return vapi.Ask(s.h, req).Body
}

// denial is what every refused request gets.
func denial(c config) vapi.Answer {
	return vapi.Ask(newServer(c, true).h, vapi.Request("GET", "/", ""))
}

type failer func(kind, format string, args ...any)

// check gives one request to a server with and a server without credentials.
func check(s, open *server, c config, nonce, openNonce string, refused vapi.Answer, method, path, query string, auth []string, fail failer) string {
	req := vapi.Request(method, path, query)
	for _, a := range auth {
		req.Header.Add("Authorization", a)
	}
	what := fmt.Sprintf("%q, %.60q, credentials %.200q: ", method, path+"?"+query, auth)
	before := s.calls()
	got := vapi.Ask(s.h, req)
	calls := s.calls() - before

	origin := c.origin
	if origin == "" {
		origin = "*"
	}
	if o := got.Header["Access-Control-Allow-Origin"]; len(o) != 1 || o[0] != origin {
		fail("origin", "%sallowed origin %q instead of %q", what, o, origin)
	}
	if !allowed(c, auth) {
		if got.Code != 401 {
			fail("served", "%sstatus %d instead of 401, %.60q", what, got.Code, got.Body)
		}
		if calls != 0 {
			fail("served", "%sthe database or the static files are used %d times", what, calls)
		}
		if a := got.Header.Get("WWW-Authenticate"); !strings.HasPrefix(a, "Basic realm=") {
			fail("challenge", "%sthe challenge is %q", what, a)
		}
		if !reflect.DeepEqual(got.Header, refused.Header) || got.FirstLine() != refused.FirstLine() {
			fail("leak", "%sthe refusal %v %q differs from the one of /, %v %q", what, got.Header, got.FirstLine(), refused.Header, refused.FirstLine())
		}
		for _, secret := range []string{c.user, c.pass, nonce, "secret.metric", vapi.Text} {
			if len(secret) > 3 && secret != "user" && (strings.Contains(got.Body, secret) || strings.Contains(fmt.Sprint(got.Header), secret)) {
				fail("leak", "%sthe refusal has %.20q: %q", what, secret, got.Body)
			}
		}
		return "refused"
	}
	open.db.FailAt, s.db.FailAt = 0, 0
	before = open.calls()
	want := vapi.Ask(open.h, vapi.Request(method, path, query))
	if got.Code == 401 {
		fail("refused", "%sstatus 401 with the right credentials", what)
	}
	if method != "GET" && got.Code != 405 {
		fail("method", "%sstatus %d", what, got.Code)
	}
	if got.Header.Get("WWW-Authenticate") != "" {
		fail("challenge", "%sa challenge with status %d", what, got.Code)
	}
	if got.Code >= 400 {
		got.Body, want.Body = got.FirstLine(), want.FirstLine()
	}
	got.Body = strings.Replace(got.Body, nonce, "NONCE", 1)
	want.Body = strings.Replace(want.Body, openNonce, "NONCE", 1)
	if got.Code != want.Code || got.Body != want.Body || !reflect.DeepEqual(got.Header, want.Header) || calls != open.calls()-before {
		fail("differs", "%s%d %v %.60q with %d calls instead of %d %v %.60q with %d", what, got.Code, got.Header, got.Body, calls, want.Code, want.Header, want.Body, open.calls()-before)
	}
	return fmt.Sprint("served ", got.Code)
}

func product() vh.Scenario {
	return vh.Scenario{Name: "requests", Weight: 10, Enum: func(e *vh.Enum) {
		for _, c := range configs {
			for _, static := range []bool{true, false} {
				s, open := newServer(c, static), newServer(config{origin: c.origin}, static)
				nonce, openNonce := s.nonce(c), open.nonce(config{})
				refused := vapi.Answer{}
				if c.user != "" {
					refused = denial(c)
				}
				for _, auth := range credentials(c, false) {
					for _, m := range methods {
						if !e.Next() {
							continue
						}
						for _, p := range paths {
							for qi, q := range queries {
								if qi > 0 && p != "/api/query" && (p != "/api/render" || m != "GET" && m != "HEAD") && (p != "/" || qi == 1) {
									continue
								}
								e.Calls++
								e.Try(fmt.Sprintf("config %q %s %s?%s %.100q", c, m, p, q, auth), func() {
									e.Outcome(check(s, open, c, nonce, openNonce, refused, m, p, q, auth, func(kind, format string, args ...any) {
										e.Failf(kind, "config %.60q: %s", c, fmt.Sprintf(format, args...))
									}))
								})
							}
						}
					}
				}
			}
		}
	}}
}

// forged: every credential close to the right one.
func forged() vh.Scenario {
	return vh.Scenario{Name: "forged", Weight: 5, Enum: func(e *vh.Enum) {
		for _, c := range configs {
			if c.user == "" {
				continue
			}
			s, open := newServer(c, true), newServer(config{origin: c.origin}, true)
			nonce, openNonce := s.nonce(c), open.nonce(config{})
			refused := denial(c)
			for i, auth := range credentials(c, true) {
				if !e.Next() {
					continue
				}
				e.Try(fmt.Sprintf("config %.20q credential %d", c, i), func() {
					for _, p := range []string{"/", "/api/query", "/api/nonce"} {
						e.Calls++
						e.Outcome(check(s, open, c, nonce, openNonce, refused, "GET", p, "", auth, func(kind, format string, args ...any) {
							e.Failf(kind, "config %.60q: %s", c, fmt.Sprintf(format, args...))
						}))
					}
				})
			}
		}
	}}
}

// histories: what a client may do does not depend on the requests before.
func histories(n int) vh.Scenario {
	return vh.Scenario{Name: "histories", Weight: 3, Body: func() {
		c := configs[2]
		s, open := newServer(c, true), newServer(config{origin: c.origin}, true)
		nonce, openNonce := s.nonce(c), open.nonce(config{})
		refused := denial(c)
		auths := [][]string{{basic("user:pa:ss")}, {}, {basic("user:pa")}, {basic("other:pa:ss")}}
		var seen []string
		for i := 0; i < n; i++ {
			auth := auths[vs.Choose(len(auths))]
			p := []string{"/", "/api/query", "/api/nonce"}[vs.Choose(3)]
			m := []string{"GET", "POST"}[vs.Choose(2)]
			seen = append(seen, check(s, open, c, nonce, openNonce, refused, m, p, "", auth, func(kind, format string, args ...any) {
				vs.Fail(kind, "after %v: %s", seen, fmt.Sprintf(format, args...))
			}))
		}
		vs.Outcome(strings.Join(seen, ","))
	}}
}

// together: requests at the same time are judged by their own credentials.
func together(sched int) vh.Scenario {
	return vh.Scenario{Name: "together", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, true), Body: func() {
		c := configs[2]
		h := api.New(newDB(), nil, api.Options{Username: c.user, Password: c.pass})
		auths := []string{basic("user:pa:ss"), basic("user:wrong"), ""}
		pick := vs.Choose(3)
		left := 2
		points = true
		for i := 0; i < 2; i++ {
			auth := auths[(pick+i)%3]
			vs.Spawn("client", func() {
				got := vapi.Ask(h, vapi.Request("GET", "/api/query", "query=secret", "Authorization", auth))
				if want := map[bool]int{true: 200, false: 401}[allowed(c, []string{auth})]; got.Code != want {
					vs.Fail("served", "status %d instead of %d with %q", got.Code, want, auth)
				}
				if got.Code == 401 && strings.Contains(got.Body, "metric") {
					vs.Fail("leak", "%q", got.Body)
				}
				left--
			})
		}
		vs.Wait("clients", func() bool { return left == 0 })
		points = false
		vs.Outcome("done")
	}}
}

var points bool

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "H01", Level: "model_checking",
		Rule:        "every combination of configuration, method, path, query and form of credentials, against a reference of basic authentication and a server without credentials; every deletion, truncation, insertion and flipped bit of the right credentials; every sequence of requests up to a depth; schedules of two clients",
		Assumptions: []string{"the database and the static files are models that count their uses", "timing of comparisons is not observed"},
		Scenarios: func(tier string) []vh.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{product(), forged(), histories(2 + d), together(1 + d)}
		}})
}
