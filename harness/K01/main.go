//go:build go1.21

// K01: a configuration is loaded completely or refused, and never leaks
// secrets.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/ui"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vsig"
)

type (
	dict = map[string]interface{}
	list = []interface{}
)

// lit is a literal and what it means. A nil value is a literal of the wrong
// type.
type lit struct {
	text string
	val  interface{}
}

var absent = lit{"", nil}

// strs are literals for a setting that is a string.
func strs(def string) []lit {
	return []lit{
		{`"` + def + `"`, def}, absent, {`""`, ""}, {`'a\b "c"'`, `a\b "c"`}, {`"\" \\ \t \n \u00e9"`, "\" \\ \t \n é"},
		{"\"\"\"x\ny\"\"\"", "x\ny"}, {`"# [a] = ,"`, "# [a] = ,"},
		{"5", nil}, {"1.5", nil}, {"true", nil}, {`["a"]`, nil}, {"1979-05-27T07:32:00Z", nil},
	}
}

var durations = []lit{
	{`"10m"`, 10 * time.Minute}, absent, {`"1h2m3s4ms5us6ns"`, time.Hour + 2*time.Minute + 3*time.Second + 4*time.Millisecond + 5*time.Microsecond + 6},
	{`"-1.5h"`, -90 * time.Minute}, {`"0s"`, time.Duration(0)}, {`"1ns"`, time.Duration(1)}, {`"2562047h47m16.854775807s"`, time.Duration(1<<63 - 1)},
	{`""`, nil}, {`"10"`, nil}, {`"10 m"`, nil}, {`"ten"`, nil}, {`"99999999h"`, nil}, {`5`, nil}, {`1.5`, nil}, {`true`, nil}, {`["10m"]`, nil},
}

var plugins = []lit{
	{`[]`, []string{}}, absent, {`["a.so"]`, []string{"a.so"}}, {"[\n\"b\", # c\n \"a\", \"b\",\n]", []string{"b", "a", "b"}}, {`[""]`, []string{""}},
	{`[5]`, nil}, {`"a.so"`, nil}, {`5`, nil}, {`[["a"]]`, nil}, {`true`, nil},
}

// entity are the literals of one entity.
type entity struct {
	kind string
	lit
}

// sections are texts of the database or dist section with %s for the name.
type section struct {
	text string
	want []config.Entity // more or less than one is refused; nil is ill-typed
}

func sections() []section {
	e := func(kind string, c interface{}) []config.Entity { return []config.Entity{{Kind: kind, Config: c}} }
	many := dict{"s": "x", "i": int64(-7), "f": 2.5, "b": true, "l": list{int64(1), int64(2)}, "sub": dict{"d": dict{"k": "v"}}}
	return []section{
		{"[%s.files]\n directory = \"data\"\n size = 256", e("files", dict{"directory": "data", "size": int64(256)})},
		{"[%s.files]", e("files", dict{})},
		{"[%s.other]\n s = \"x\"\n i = -7\n f = 2.5\n b = true\n l = [1, 2]\n[%[1]s.other.sub.d]\n k = \"v\"", e("other", many)},
		{"[%s]\n other = { a = 1, b = \"x\" }", e("other", dict{"a": int64(1), "b": "x"})},
		{"[%s]\n other = 5", e("other", int64(5))},
		{"[%s]\n other = \"x\"", e("other", "x")},
		{"[%s.\"my.own kind\"]\n a = 9223372036854775807", e("my.own kind", dict{"a": int64(1<<63 - 1)})},
		{"[[%s.files]]\n a = 1\n[[%[1]s.files]]\n a = 2", e("files", []dict{{"a": int64(1)}, {"a": int64(2)}})},
		{"", nil},
		{"[%s]", nil},
		{"[%s.a]\n[%[1]s.b]", nil},
		{"[%s.a]\n x = 1\n[%[1]s.b]\n x = 1\n[%[1]s.c]", nil},
		{"[[%s]]\n a = 1", nil},
	}
}

type listeners struct {
	text string
	want []config.Entity
	bad  bool
}

func listenerTexts() []listeners {
	g := func(kind string, c interface{}) config.Entity { return config.Entity{Kind: kind, Config: c} }
	a1, a2 := dict{"address": ":1"}, dict{"address": ":2"}
	return []listeners{
		{text: "[[listeners.graphite]]\n address = \":1\"", want: []config.Entity{g("graphite", a1)}},
		{text: ""},
		{text: "[listeners]"},
		{text: "[[listeners.graphite]]\n address = \":1\"\n[[listeners.graphite]]\n address = \":2\"", want: []config.Entity{g("graphite", a1), g("graphite", a2)}},
		{text: "[[listeners.graphite]]\n address = \":2\"\n[[listeners.graphite]]\n address = \":1\"", want: []config.Entity{g("graphite", a2), g("graphite", a1)}},
		{text: "[[listeners.graphite]]\n address = \":1\"\n[[listeners.b]]\n x = 1\n[[listeners.graphite]]\n address = \":1\"\n[[listeners.c]]", want: []config.Entity{
			g("b", dict{"x": int64(1)}), g("c", dict{}), g("graphite", a1), g("graphite", a1)}},
		{text: "[[listeners.graphite]]\n address = \":1\"\n[listeners.graphite.sub]\n k = [\"v\"]", want: []config.Entity{g("graphite", dict{"address": ":1", "sub": dict{"k": list{"v"}}})}},
		{text: "[listeners]\n graphite = []"},
		{text: "[listeners]\n graphite = [\":1\"]", want: []config.Entity{g("graphite", ":1")}},
		{text: "[listeners]\n graphite = \":1\"", bad: true},
		{text: "[listeners.graphite]\n address = \":1\"", bad: true},
		{text: "[[listeners]]\n address = \":1\"", bad: true},
		{text: "listeners = 5", bad: true},
	}
}

// norm removes differences without meaning.
func norm(c config.Config) config.Config {
	if len(c.Main.Plugins) == 0 {
		c.Main.Plugins = nil
	}
	if len(c.Listeners) == 0 {
		c.Listeners = nil
	}
	c.Listeners = append([]config.Entity(nil), c.Listeners...)
	sort.SliceStable(c.Listeners, func(i, j int) bool { return c.Listeners[i].Kind < c.Listeners[j].Kind })
	return c
}

// view has what is exported.
func view(c *config.Config) config.Config {
	return norm(config.Config{Main: c.Main, Listeners: c.Listeners, Database: c.Database, Dist: c.Dist, API: c.API})
}

func same(a, b config.Config) bool { return reflect.DeepEqual(norm(a), norm(b)) }

// documents: settings deviate from a usual configuration.
func documents(env int) vh.Scenario {
	return vh.Scenario{Name: "documents", Bound: vs.Bound{Env: env}, Weight: vh.Weight(1, false), Body: func() {
		var want config.Config
		bad := false
		var top, doc strings.Builder
		order := vs.Deviate(2)
		set := func(key string, lits []lit, dst interface{}) string {
			l := lits[vs.Deviate(len(lits))]
			if l.text == "" {
				return ""
			}
			if l.val == nil {
				bad = true
			} else {
				reflect.ValueOf(dst).Elem().Set(reflect.ValueOf(l.val))
			}
			return " " + key + " = " + l.text + "\n"
		}
		var parts []string
		main := set("duration", durations, &want.Main.Duration) + set("plugins", plugins, &want.Main.Plugins)
		api := set("address", strs(":8080"), &want.API.Address) + set("origin", strs("*"), &want.API.Origin)
		tls := set("key", strs("key"), &want.API.TLS.Key) + set("cert", strs("cert"), &want.API.TLS.Cert)
		sec := set("username", strs("admin"), &want.API.Security.Username) + set("password", strs("boogers"), &want.API.Security.Password)
		extra := []string{"", "[unknown]\n a = 1\n", "[main.sub]\n duration = \"1s\"\n", "broken", "[main]\n", "[a\n", "a = \n"}[vs.Deviate(7)]
		ill := map[string]bool{"broken": true, "[main]\n": true, "[a\n": true, "a = \n": true}[extra]
		parts = append(parts, "[main]\n"+main)
		ls := listenerTexts()
		l := ls[vs.Deviate(len(ls))]
		if strings.HasPrefix(l.text, "listeners =") {
			top.WriteString(l.text + "\n")
		} else {
			parts = append(parts, l.text)
		}
		want.Listeners = l.want
		bad = bad || l.bad || ill
		for i, dst := range []*config.Entity{&want.Database, &want.Dist} {
			ss := sections()
			s := ss[vs.Deviate(len(ss))]
			name := []string{"database", "dist"}[i]
			if len(s.want) != 1 {
				bad = true
			} else {
				*dst = s.want[0]
			}
			if strings.Contains(s.text, "%s") {
				parts = append(parts, fmt.Sprintf(s.text, name))
			}
		}
		parts = append(parts, "[api]\n"+api, "[api.tls]\n"+tls, "[api.security]\n"+sec)
		if order == 1 {
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
			if strings.HasPrefix(extra, "[main.sub]") {
				extra = ""
			}
		}
		doc.WriteString(top.String())
		doc.WriteString(strings.Join(parts, "\n# comment\n\n"))
		doc.WriteString("\n" + extra)

		conf, err := config.Load([]byte(doc.String()))
		if bad {
			if err == nil {
				vs.Fail("accepted", "the configuration is accepted:\n%s\nas %+v", doc.String(), view(conf))
			}
			if !config.ParseError.Has(err) || conf != nil {
				vs.Fail("error", "the error %v is no parse error (%+v)", err, conf)
			}
			vs.Outcome("%v", err)
			return
		}
		if err != nil {
			vs.Fail("refused", "the configuration is refused with %v:\n%s", err, doc.String())
		}
		if !same(view(conf), want) {
			vs.Fail("settings", "the configuration\n%s\nis loaded as %+v instead of %+v", doc.String(), view(conf), want)
		}
		redacted(conf)
		written(conf, want, false)
		vs.Outcome("%+v", want)
	}}
}

// redacted: nothing of the redacted settings is left in any form.
func redacted(conf *config.Config) {
	before := view(conf)
	r := conf.API.Redact()
	js, err := json.Marshal(r)
	if err != nil {
		vs.Fail("redact", "%v", err)
	}
	for _, s := range []string{conf.API.TLS.Key, conf.API.TLS.Cert, conf.API.Security.Username, conf.API.Security.Password} {
		for _, v := range []string{r.TLS.Key, r.TLS.Cert, r.Security.Username, r.Security.Password} {
			if s != "" && strings.Contains(v, s) {
				vs.Fail("redact", "the secret %q is in %+v", s, r)
			}
		}
		if len(s) > 3 && !strings.Contains(r.Address+r.Origin, s) {
			for _, v := range []string{fmt.Sprintf("%v", r), fmt.Sprintf("%+v", r), string(js)} {
				if strings.Contains(v, s) {
					vs.Fail("redact", "the secret %q is in %s", s, v)
				}
			}
		}
	}
	if r.Address != conf.API.Address || r.Origin != conf.API.Origin {
		vs.Fail("redact", "%+v is redacted to %+v", conf.API, r)
	}
	if !same(before, view(conf)) {
		vs.Fail("redact", "the configuration is changed to %+v", view(conf))
	}
}

// written: a configuration that is written loads as the same.
func written(conf *config.Config, want config.Config, strict bool) {
	var buf bytes.Buffer
	if err := conf.WriteTo(&buf); err != nil {
		// not everything can be written, but that is reported
		vs.Outcome("not written: %v", err)
		if strict {
			vs.Fail("written", "the configuration is not written: %v\n%+v", err, want)
		}
		return
	}
	text := buf.String()
	again, err := config.Load(buf.Bytes())
	if err != nil {
		vs.Fail("written", "the written configuration is refused with %v:\n%s\nit was %+v", err, text, want)
	}
	if !same(view(again), want) {
		vs.Fail("written", "the configuration %+v is written as\n%s\nwhich is loaded as %+v", want, text, view(again))
	}
}

// bytesOf: every short document is loaded or refused.
func short(alphabet []string, length int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("short-%d", length), Weight: vh.Weight(1, false), Enum: func(e *vh.Enum) {
		idx := make([]int, length)
		for n := 0; n <= length; n++ {
			for i := range idx {
				idx[i] = 0
			}
			for {
				if e.Next() {
					var b strings.Builder
					for _, i := range idx[:n] {
						b.WriteString(alphabet[i])
					}
					doc := b.String()
					e.Try(fmt.Sprintf("%q", doc), func() {
						conf, err := config.Load([]byte(doc))
						switch {
						case err == nil && (conf == nil || conf.Database.Kind == "" && !strings.Contains(doc, `""`)):
							e.Failf("short", "%q is loaded as %+v", doc, conf)
						case err != nil && (conf != nil || !config.ParseError.Has(err)):
							e.Failf("short", "%q fails with %v, %+v", doc, err, conf)
						case err == nil:
							e.Outcome("loaded")
						default:
							e.Outcome("refused")
						}
					})
				}
				i := n - 1
				for ; i >= 0; i-- {
					if idx[i]++; idx[i] < len(alphabet) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}}
}

// initial: the generated configuration, with every setting in a comment
// enabled or not, loads.
func initial() vh.Scenario {
	return vh.Scenario{Name: "initial", Body: func() {
		lines := strings.Split(config.InitialConfig, "\n")
		// blocks of settings in comments start with a section
		var blocks [][]int
		in := false
		for i, l := range lines {
			switch {
			case strings.HasPrefix(l, "# ["):
				blocks = append(blocks, []int{i})
				in = true
			case in && strings.HasPrefix(l, "# \t"):
				blocks[len(blocks)-1] = append(blocks[len(blocks)-1], i)
			default:
				in = false
			}
		}
		want := config.Config{
			Main:      config.MainConfig{Duration: 10 * time.Minute},
			Listeners: []config.Entity{{Kind: "graphite", Config: dict{"address": ":1111"}}},
			Database:  config.Entity{Kind: "files", Config: dict{"directory": "data", "size": int64(256), "cap": int64(400), "files": int64(2)}},
			Dist:      config.Entity{Kind: "tdigest", Config: dict{"compression": 5.0}},
			API:       config.APIConfig{Address: ":8080", Origin: "*"},
		}
		for _, b := range blocks {
			if vs.Choose(2) == 0 {
				continue
			}
			for _, i := range b {
				lines[i] = strings.TrimPrefix(lines[i], "# ")
			}
			switch strings.TrimSpace(lines[b[0]]) {
			case "[[listeners.graphite]]":
				want.Listeners = append(want.Listeners, config.Entity{Kind: "graphite", Config: dict{"address": ":2222"}})
			case "[database.files.tuning]":
				want.Database.Config.(dict)["tuning"] = dict{"buffer": int64(20000), "drop": false, "workers": int64(0), "handles": int64(0)}
			case "[api.tls]":
				want.API.TLS = config.APITLSConfig{Key: "key", Cert: "cert"}
			case "[api.security]":
				want.API.Security = config.APISecurityConfig{Username: "admin", Password: "boogers"}
			default:
				vs.Fail("initial", "unknown section %s", lines[b[0]])
			}
		}
		conf, err := config.Load([]byte(strings.Join(lines, "\n")))
		if err != nil {
			vs.Fail("initial", "%v\n%s", err, strings.Join(lines, "\n"))
		}
		if !same(view(conf), want) {
			vs.Fail("initial", "the initial configuration is loaded as %+v instead of %+v", view(conf), want)
		}
		redacted(conf)
		written(conf, want, true)
		vs.Outcome("%+v", want)
	}}
}

// logger keeps what is logged.
type logger struct{ b strings.Builder }

func (l *logger) Observe(string, float64) {}
func (l *logger) Infow(m string, kv ...interface{}) {
	js, _ := json.Marshal(kv)
	fmt.Fprintf(&l.b, "%s %v %+v %#v %s\n", m, kv, kv, kv, js)
}
func (l *logger) Errorw(m string, kv ...interface{}) { l.Infow(m, kv...) }

var errText error = errors.New("")

// started: a loaded configuration either starts the server until the
// interrupt, or is refused. The log has no secrets.
func started(env int) vh.Scenario {
	return vh.Scenario{Name: "started", Bound: vs.Bound{Env: env}, Weight: vh.Weight(1, false), Opt: vs.Options{MaxIdleFires: 200}, Body: func() {
		vs.FS.NoPoints = true
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		pick := func(s ...string) string { return s[vs.Deviate(len(s))] }
		good := true
		use := func(s string, bad ...string) string {
			for _, b := range bad {
				if s == b {
					good = false
				}
			}
			return s
		}
		secrets := []string{"us3r", "passw0rd", "th3key", "th3cert"}
		doc := use(pick("[main]\n duration = \"10m\"", "[main]\n duration = \"0s\"", "[main]\n duration = \"-1s\"", "", "[main]\n duration=\"1ns\"",
			"[main]\n duration=\"2562047h\"", "[main]\n duration=\"10m\"\n plugins = [\"/nowhere.so\"]"),
			"[main]\n duration = \"0s\"", "[main]\n duration = \"-1s\"", "", "[main]\n duration=\"10m\"\n plugins = [\"/nowhere.so\"]") + "\n"
		doc += use(pick("[[listeners.graphite]]\n address = \":1\"", "", "[[listeners.unknown]]", "[[listeners.graphite]]\n address = 5", "[[listeners.graphite]]\n address=\":1\"\n[[listeners.graphite]]\n address=\":2\""),
			"[[listeners.unknown]]", "[[listeners.graphite]]\n address = 5") + "\n"
		files := fmt.Sprintf("[database.files]\n directory = %q\n size = 64\n cap = 2\n files = 1\n[database.files.tuning]\n handles = 2\n", dir)
		doc += use(pick(files+" workers = 1", files+" workers = \"1\"", "[database.unknown]", files+" buffer = 3\n workers = 2\n drop = true", files+" drop = 1"),
			files+" workers = \"1\"", "[database.unknown]", files+" drop = 1") + "\n"
		doc += use(pick("[dist.tdigest]\n compression = 5.0", "[dist.unknown]", "[dist.tdigest]\n compression = \"5\"", "[dist.tdigest]\n compression = true"),
			"[dist.unknown]", "[dist.tdigest]\n compression = \"5\"", "[dist.tdigest]\n compression = true") + "\n"
		half := " [api.tls]\n key=\"th3key\"\n"
		tls := ""
		doc += "[api]\n address = \"api\"\n" +
			pick(" [api.security]\n username=\"us3r\"\n password=\"passw0rd\"\n", "", " [api.security]\n password=\"passw0rd\"\n")
		tls = pick("", " [api.tls]\n key=\"th3key\"\n cert=\"th3cert\"\n", half)
		doc += tls
		conf, err := config.Load([]byte(doc))
		if err != nil {
			vs.Fail("refused", "the configuration is refused with %v:\n%s", err, doc)
		}
		log := &logger{}
		external.Default.Logger = log
		external.Default.Monitor = log
		begun, done := false, false
		vs.Spawn("server", func() {
			begun, err = rothko.VerifRun(context.Background(), conf)
			done = true
		})
		vs.Wait("signal handler", func() bool { return vsig.Registered(syscall.SIGINT) > 0 || done })
		if !done {
			vs.Quiesce()
			vsig.Raise(syscall.SIGINT)
			vs.Wait("end", func() bool { return done })
		}
		// half of a pair of key and certificate can not be served with: it
		// ends with an error, early or late
		if good && tls != half && (!begun || err != nil) || !good && (begun || err == nil) || tls == half && err == nil {
			vs.Fail("started", "the configuration is good: %v, it was started: %v, error: %v\n%s", good, begun, err, doc)
		}
		text := log.b.String()
		if err != nil {
			text += err.Error()
		}
		for _, s := range secrets {
			if strings.Contains(text, s) {
				vs.Fail("log", "the secret %q is logged:\n%s", s, text)
			}
		}
		vs.Outcome("%v %v", begun, err)
	}}
}

func main() {
	ui.Tarball = nil
	vh.Main(vh.Check{ID: "K01", Level: "model_checking",
		Rule:        "every deviation of up to the bound of settings from a usual configuration (absent, other values, wrong types, other sections) compared with what it states, every short document over the tokens, and the start of the server",
		Assumptions: []string{"settings that are not known may be ignored"},
		Scenarios: func(tier string) []vh.Scenario {
			tokens := []string{"[", "]", "\"", "=", ".", "a", "\n", "1", "{", ","}
			words := []string{"[database.a]\n", "[dist.b]\n", "[[listeners.c]]\n", "a", " = ", "1", "\"", "[", "]", "\n", "{", "}", ",", "-", "'", "#", "database", "\xff"}
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{
				initial(),
				started(3 + d),
				documents(3 + d),
				short(tokens, 6+d),
				short(words, 5+d),
			}
		}})
}
