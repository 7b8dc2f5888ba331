//go:build go1.21

// K02: components are built from configuration exactly as stated.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/typeassert"
	"github.com/vivint/rothko/listener"
	_ "github.com/vivint/rothko/listener/graphite"
	"github.com/vivint/rothko/registry"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
)

type (
	dict = map[string]interface{}
	list = []interface{}
)

// ------------------------------------------------------------- assertions

type step struct {
	key   string // or
	index int
}

func (s step) String() string {
	if s.key != "" {
		return "." + s.key
	}
	return fmt.Sprintf("[%d]", s.index)
}

var terminals = []string{"int", "int64", "string", "bool", "float64", "value"}

// reference evaluates a chain. It returns an error for the first step that
// does not apply.
func reference(x interface{}, steps []step, term string) (interface{}, bool) {
	for _, s := range steps {
		if x == nil {
			continue
		}
		if s.key != "" {
			m, ok := x.(dict)
			if !ok {
				return nil, false
			}
			x = m[s.key]
			continue
		}
		l, ok := x.(list)
		if !ok || s.index >= len(l) {
			return nil, false
		}
		x = l[s.index]
	}
	if term == "value" {
		return x, true
	}
	zero := map[string]interface{}{"int": 0, "int64": int64(0), "string": "", "bool": false, "float64": 0.0}[term]
	if x == nil {
		return zero, true
	}
	if fmt.Sprintf("%T", x) != term {
		return nil, false
	}
	return x, true
}

func zero(term string) interface{} {
	v, _ := reference(nil, nil, term)
	return v
}

func apply(a *typeassert.Asserter, steps []step, term string) interface{} {
	for _, s := range steps {
		if s.key != "" {
			a = a.I(s.key)
		} else {
			a = a.N(s.index)
		}
	}
	switch term {
	case "int":
		return a.Int()
	case "int64":
		return a.Int64()
	case "string":
		return a.String()
	case "bool":
		return a.Bool()
	case "float64":
		return a.Float64()
	}
	return a.V()
}

func equal(a, b interface{}) bool { return fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b) }

// values that configurations are made of.
func values(depth int) []interface{} {
	out := []interface{}{nil, 3, int64(4), "x", true, 1.5}
	if depth == 0 {
		return append(out, 0, int64(0), "", false, 0.0)
	}
	inner := values(depth - 1)
	for _, v := range inner {
		out = append(out, dict{"a": v}, list{v})
	}
	for _, v := range inner[:6] {
		out = append(out, dict{"a": v, "b": "y"}, list{"y", v}, dict{"b": v})
	}
	return append(out, dict{}, list{}, []string{"x"}, map[string]string{"a": "x"}, []dict{{"a": 1}})
}

func chains(depth int) (out [][]step) {
	out = [][]step{nil}
	last := out
	for i := 0; i < depth; i++ {
		var next [][]step
		for _, c := range last {
			for _, s := range []step{{key: "a"}, {key: "b"}, {index: 0}, {index: 1}} {
				next = append(next, append(append([]step(nil), c...), s))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// assertions: every pair of chains over every value.
func assertions(depth, len1, len2 int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("assertions-%d-%d-%d", depth, len1, len2), Weight: 5, Enum: func(e *vh.Enum) {
		for _, v := range values(depth) {
			for _, c1 := range chains(len1) {
				if !e.Next() {
					continue
				}
				e.Try(fmt.Sprintf("%#v %v", v, c1), func() {
					for _, t1 := range terminals {
						for _, c2 := range chains(len2) {
							for _, t2 := range terminals {
								e.Calls++
								a := typeassert.A(v)
								got1 := apply(a, c1, t1)
								want1, ok1 := reference(v, c1, t1)
								err1 := a.Err()
								if (err1 == nil) != ok1 || ok1 && !equal(got1, want1) || !ok1 && t1 != "value" && !equal(got1, zero(t1)) {
									e.Failf("assert", "%#v %v as %s: %#v, error %v instead of %#v, %v", v, c1, t1, got1, err1, want1, ok1)
									return
								}
								got2 := apply(a, c2, t2)
								want2, ok2 := reference(v, c2, t2)
								switch {
								case !ok1:
									// the first error stays
									if a.Err() == nil || a.Err().Error() != err1.Error() || t2 != "value" && !equal(got2, zero(t2)) {
										e.Failf("sticky", "%#v %v as %s failed with %v, then %v as %s: %#v, %v", v, c1, t1, err1, c2, t2, got2, a.Err())
										return
									}
								case (a.Err() == nil) != ok2 || ok2 && !equal(got2, want2):
									e.Failf("assert", "%#v %v, then %v as %s: %#v, error %v instead of %#v, %v", v, c1, c2, t2, got2, a.Err(), want2, ok2)
									return
								}
							}
						}
					}
					e.Outcome("done")
				})
			}
		}
	}}
}

// ------------------------------------------------------------- components

// setting is a key and what its values are.
type setting struct {
	key  string
	good []interface{}
}

func bads(v interface{}) []interface{} {
	all := []interface{}{"x", int64(7), 2.5, true, list{int64(1)}, dict{"a": "b"}, []dict{{"a": 1}}, int(7), "", int64(0), false, 0.0, list{}, dict{}}
	var out []interface{}
	for _, b := range all {
		if fmt.Sprintf("%T", b) != fmt.Sprintf("%T", v) {
			out = append(out, b)
		}
	}
	return out
}

// choose picks a value: the usual one, another good one, absent or one of the
// wrong type.
func choose(s setting, m dict) (bad bool) {
	bs := bads(s.good[0])
	i := vs.Deviate(len(s.good) + 2 + len(bs))
	switch {
	case i < len(s.good):
		m[s.key] = s.good[i]
	case i == len(s.good):
	case i == len(s.good)+1:
		m[s.key] = nil
	default:
		m[s.key] = bs[i-len(s.good)-2]
		return true
	}
	return false
}

func num(m dict, key string) int {
	n, _ := m[key].(int64)
	return int(n)
}

// filesDB: the options of the database show in what it does.
func filesDB(env int) vh.Scenario {
	return vh.Scenario{Name: "files", Bound: vs.Bound{Env: env}, Weight: vh.Weight(1, false), Body: func() {
		vs.FS.NoPoints = true
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		vs.FS.Root = filepath.Dir(dir)
		i := func(n ...int64) (out []interface{}) {
			for _, v := range n {
				out = append(out, v)
			}
			return out
		}
		settings := []setting{{"size", i(80, 96, 300)}, {"cap", i(3, 1, 2)}, {"files", i(2, 1, 3)}}
		tuning := []setting{{"buffer", i(1, 0, 2, 3, -1, -1<<40)}, {"drop", []interface{}{true, false}}, {"workers", i(2, 1, 3, -1)}, {"handles", i(2, 1, 4, -1)}}
		conf, tun := dict{}, dict{}
		var wrong []string
		if choose(setting{"directory", []interface{}{dir, filepath.Dir(dir) + "/other"}}, conf) {
			wrong = append(wrong, "directory")
		}
		for _, s := range settings {
			if choose(s, conf) {
				wrong = append(wrong, s.key)
			}
		}
		for _, s := range tuning {
			if choose(s, tun) {
				wrong = append(wrong, s.key)
			}
		}
		switch vs.Deviate(4) {
		case 0:
			conf["tuning"] = tun
		case 1:
			tun = dict{}
			wrong = append([]string(nil), wrong...)
			for i := 0; i < len(wrong); i++ {
				switch wrong[i] {
				case "buffer", "drop", "workers", "handles":
					wrong = append(wrong[:i:i], wrong[i+1:]...)
					i--
				}
			}
		case 2:
			conf["tuning"], tun = list{tun}, nil
			wrong = append(wrong, "tuning")
		case 3:
			conf["tuning"], tun = "x", nil
			wrong = append(wrong, "tuning")
		}
		for _, k := range []string{"buffer", "workers"} {
			if num(tun, k) < 0 {
				wrong = append(wrong, k)
			}
		}
		db, err := registry.NewDatabase(context.Background(), "files", conf)
		if len(wrong) > 0 {
			if err == nil {
				vs.Fail("accepted", "the database is built from %v", conf)
			}
			named := false
			for _, k := range wrong {
				named = named || strings.Contains(err.Error(), k)
			}
			if !named || db != nil {
				vs.Fail("error", "the error %v does not name the problem of %v", err, conf)
			}
			vs.Outcome("%v", err)
			return
		}
		if err != nil {
			vs.Fail("refused", "%v is refused: %v", conf, err)
		}
		if conf["directory"] == nil {
			return // the database would be in the current directory
		}
		behaves(db.(*files.DB), conf, tun)
	}}
}

// behaves compares the database with the stated options.
func behaves(db *files.DB, conf, tun dict) {
	dir := conf["directory"].(string)
	size, cp, nf := num(conf, "size"), num(conf, "cap"), num(conf, "files")
	buffer, workers, handles := num(tun, "buffer"), num(tun, "workers"), num(tun, "handles")
	drop, _ := tun["drop"].(bool)
	geo := vdb.Geo{Size: size, Cap: cp, Files: nf}
	describe := fmt.Sprint(conf)

	// until it runs, values are buffered
	queued, refused := 0, 0
	ctx, cancel := vctx.WithCancel(context.Background())
	returned := 0
	for i := 0; i < buffer+2; i++ {
		vs.Spawn("client", func() {
			db.Queue(ctx, "early", int64(i), int64(i+1), []byte("x"), func(ok bool, err error) {
				if !ok {
					refused++
				}
			})
			returned++
		})
		vs.Quiesce()
		if returned == i+1 && refused == 0 {
			queued++
		}
	}
	if queued != buffer {
		vs.Fail("buffer", "%d values are buffered: %s", queued, describe)
	}
	if drop && refused != 2 || !drop && (refused != 0 || returned != buffer) {
		vs.Fail("drop", "%d values are refused and %d calls returned with a full buffer: %s", refused, returned, describe)
	}
	cancel()
	vs.Quiesce()

	d := &vdb.D{Dir: dir, DB: db, Opts: files.Options{Size: size, Cap: cp, Files: nf}}
	d.Start()
	vs.Quiesce()
	if size == 0 || cp == 0 {
		// nothing can be stored
		if ok, _ := d.Write("m", 0, 1, []byte("x")); ok {
			vs.Fail("options", "a value is stored: %s", describe)
		}
		d.Stop()
		return
	}

	// the geometry
	m := &vdb.Model{Geo: geo}
	for e := int64(1); e <= int64(cp*(nf+2)+1); e++ {
		d.Apply(m, "m", e-1, e, 5)
	}
	d.CheckQuery(m, "m", 1<<63-1)
	d.CheckDisk(m, "m")

	// every worker takes a value and waits for the readers
	if workers == 0 {
		workers = 1 // as many as there are processors, as scheduled here
		if n := tun["workers"]; n == nil || n == int64(0) {
			workers = 0
		}
	}
	if drop && workers > 0 {
		n := workers + buffer + 2
		taken, lost, open := 0, 0, 0
		var gate bool
		for i := 0; i < n; i++ {
			d.Write(fmt.Sprint("w", i), 0, 1, []byte("x"))
		}
		for i := 0; i < n; i++ {
			name := fmt.Sprint("w", i)
			vs.Spawn("reader", func() {
				db.Query(context.Background(), name, 1<<63-1, nil, func(context.Context, int64, int64, []byte) (bool, error) {
					open++
					vs.Wait("gate", func() bool { return gate })
					return false, nil
				})
				open--
			})
		}
		vs.Wait("readers", func() bool { return open == n })
		for i := 0; i < n; i++ {
			done := false
			db.Queue(context.Background(), fmt.Sprint("w", i), 1, 2, []byte("y"), func(ok bool, err error) {
				done = true
				if gate && !ok {
					lost++
				}
			})
			vs.Quiesce()
			if !done {
				taken++
			}
		}
		if taken != workers+buffer {
			vs.Fail("workers", "%d values are taken while all metrics are read: %s", taken, describe)
		}
		gate = true
		vs.Wait("readers", func() bool { return open == 0 })
		vs.Quiesce()
		if lost > 0 {
			vs.Fail("workers", "%d values are lost: %s", lost, describe)
		}
	}

	// the handles
	for i := 0; i < 6; i++ {
		d.Write(fmt.Sprint("h", i), 0, 10, []byte("x"))
	}
	vs.Quiesce()
	if st := vs.Stats(); handles > 0 && st.Maps != handles || handles < 0 && st.Maps != 0 {
		vs.Fail("handles", "%d files are kept open: %s", st.Maps, describe)
	}
	if err := d.Stop(); err != nil {
		vs.Fail("run", "%v", err)
	}
	if _, err := os.Stat(dir); err != nil {
		vs.Fail("directory", "%v: %s", err, describe)
	}
	vs.Outcome("%s", describe)
}

// digest: the compression of the distribution.
func digest() vh.Scenario {
	return vh.Scenario{Name: "tdigest", Body: func() {
		vals := []interface{}{5.0, 0.5, 1.0, 100.0, 65536.0, nil, 0.0, -5.0, -0.0001, 1e300, 65537.0, int64(5), "5", true, list{5.0}, dict{"x": 5.0}}
		var conf interface{}
		var c interface{}
		switch vs.Choose(5) {
		case 0:
			c = vals[vs.Choose(len(vals))]
			conf = dict{"compression": c}
		case 1:
			conf = nil
		case 2:
			conf = dict{}
		case 3:
			conf, c = list{}, "bad"
		case 4:
			conf, c = 5.0, "bad"
		}
		p, err := registry.NewDistribution(context.Background(), "tdigest", conf)
		f, ok := c.(float64)
		if c != nil && !ok {
			if err == nil || p != nil {
				vs.Fail("accepted", "the distribution is built from %v", conf)
			}
			if c != "bad" && !strings.Contains(err.Error(), "compression") {
				vs.Fail("error", "the error %v does not name the problem of %v", err, conf)
			}
			vs.Outcome("%v", err)
			return
		}
		if err != nil {
			if f > 0 && f <= 65536 || f == 0 {
				vs.Fail("refused", "%v is refused: %v", conf, err)
			}
			vs.Outcome("%v", err)
			return
		}
		if p.Kind() != "tdigest" {
			vs.Fail("kind", "%q is built", p.Kind())
		}
		d, err := p.New()
		if (err == nil) != (f > 0 && f <= 65536) {
			vs.Fail("new", "a distribution from %v: %v", conf, err)
		}
		if err != nil {
			if w := data.NewWriter(p); true {
				w.Add(context.Background(), "m", 1, nil)
			}
			vs.Outcome("%v", err)
			return
		}
		want, _ := tdigest.Params{Compression: f}.New()
		for i := 0; i < 1000; i++ {
			v := float64(i*7919%1000) / 8
			d.Observe(v)
			want.Observe(v)
		}
		if !bytes.Equal(d.Marshal(nil), want.Marshal(nil)) {
			vs.Fail("compression", "the distribution from %v is another one", conf)
		}
		vs.Outcome("%v %d", f, len(d.Marshal(nil)))
	}}
}

// graphiteListener: the address.
func graphiteListener() vh.Scenario {
	return vh.Scenario{Name: "graphite", Body: func() {
		vals := []interface{}{":1", "host:1", "", nil, int64(1), 1.5, true, list{":1"}, dict{"a": ":1"}}
		v := vals[vs.Choose(len(vals))]
		confs := []interface{}{dict{"address": v}, dict{"address": v, "other": 1}, list{dict{"address": v}}, v}
		k := vs.Choose(len(confs))
		conf := confs[k]
		addr, ok := v.(string)
		good := v == nil || ok && k < 2
		if k == 3 {
			_, isMap := v.(dict)
			good = v == nil || isMap
			addr = ""
		}
		if k == 2 {
			good = false
		}
		l, err := registry.NewListener(context.Background(), "graphite", conf)
		if good != (err == nil) || (err != nil && l != nil) {
			vs.Fail("built", "a listener from %v: %v", conf, err)
		}
		if err != nil {
			if k < 2 && !strings.Contains(err.Error(), "address") {
				vs.Fail("error", "the error %v does not name the problem of %v", err, conf)
			}
			vs.Outcome("%v", err)
			return
		}
		ctx, cancel := vctx.WithCancel(context.Background())
		w := data.NewWriter(vdata.Params{})
		done := false
		vs.Spawn("run", func() { l.Run(ctx, w); done = true })
		vs.Quiesce()
		for _, a := range []string{"", ":1", "host:1"} {
			if vnet.Listening(a) != (a == addr) {
				vs.Fail("address", "the listener from %v listens on %q: %v", conf, a, vnet.Listening(a))
			}
		}
		cancel()
		vs.Wait("done", func() bool { return done })
		vs.Outcome("%v", conf)
	}}
}

// --------------------------------------------------------------- registry

type thing struct {
	database.DB
	listener.Listener
	kind string
	id   int
	conf interface{}
}

func (t *thing) Run(context.Context) error { return nil }

type fakeDB struct {
	database.DB
	t thing
}
type fakeListener struct {
	listener.Listener
	t thing
}
type fakeParams struct {
	dist.Params
	t thing
}

var kinds = []string{"database", "listener", "distribution"}

var errMake = errors.New("cannot make")

// register and build hide the kinds. Makers with a negative id fail; nested
// makers register and build another one.
func register(r *registry.Registry, kind, name string, id int, nested bool) {
	inner := func(ctx context.Context, conf interface{}) {
		if nested {
			register(r, kind, fmt.Sprint(name, "-inner-", id), id+100, false)
			if got, err := build(r, kind, fmt.Sprint(name, "-inner-", id), conf); err != nil || got.id != id+100 {
				vs.Fail("nested", "the nested %s is %v: %v", kind, got, err)
			}
		}
	}
	switch kind {
	case "database":
		r.RegisterDatabase(name, registry.DatabaseMakerFunc(func(ctx context.Context, conf interface{}) (database.DB, error) {
			inner(ctx, conf)
			if id < 0 {
				return nil, errMake
			}
			return fakeDB{t: thing{kind: kind, id: id, conf: conf}}, nil
		}))
	case "listener":
		r.RegisterListener(name, registry.ListenerMakerFunc(func(ctx context.Context, conf interface{}) (listener.Listener, error) {
			inner(ctx, conf)
			if id < 0 {
				return nil, errMake
			}
			return fakeListener{t: thing{kind: kind, id: id, conf: conf}}, nil
		}))
	case "distribution":
		r.RegisterDistribution(name, registry.DistributionMakerFunc(func(ctx context.Context, conf interface{}) (dist.Params, error) {
			inner(ctx, conf)
			if id < 0 {
				return nil, errMake
			}
			return fakeParams{t: thing{kind: kind, id: id, conf: conf}}, nil
		}))
	}
}

func build(r *registry.Registry, kind, name string, conf interface{}) (*thing, error) {
	ctx := context.Background()
	switch kind {
	case "database":
		v, err := r.NewDatabase(ctx, name, conf)
		if err != nil {
			return nil, check(v == nil, err)
		}
		t := v.(fakeDB).t
		return &t, nil
	case "listener":
		v, err := r.NewListener(ctx, name, conf)
		if err != nil {
			return nil, check(v == nil, err)
		}
		t := v.(fakeListener).t
		return &t, nil
	}
	v, err := r.NewDistribution(ctx, name, conf)
	if err != nil {
		return nil, check(v == nil, err)
	}
	t := v.(fakeParams).t
	return &t, nil
}

func check(ok bool, err error) error {
	if !ok {
		vs.Fail("error", "something is built together with the error %v", err)
	}
	return err
}

// sequences of registrations and constructions.
func sequences(depth int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("sequences-%d", depth), Body: func() {
		r := &registry.Registry{}
		if vs.Choose(2) == 1 {
			r = &registry.Default
		}
		names := []string{"verif-a", "verif-b"}
		if r == &registry.Default {
			// other executions registered these
			for _, k := range kinds {
				for _, n := range names {
					register(r, k, n, -1, false)
				}
			}
		}
		fresh := r != &registry.Default
		want := map[string]int{}
		for i := 1; i <= depth; i++ {
			kind := kinds[vs.Choose(3)]
			name := names[vs.Choose(2)]
			switch op := vs.Choose(4); op {
			case 0, 1, 2:
				id := i
				if op == 1 {
					id = -i
				}
				register(r, kind, name, id, op == 2)
				want[kind+name] = id
			case 3:
			}
			for _, k := range kinds {
				for _, n := range names {
					id, ok := want[k+n]
					conf := &i
					got, err := build(r, k, n, conf)
					switch {
					case !ok && fresh && (err == nil || !strings.Contains(err.Error(), n) || err == errMake):
						vs.Fail("unknown", "an unknown %s %s is built: %v, %v", k, n, got, err)
					case (id < 0 || !ok && !fresh) && err != errMake:
						vs.Fail("error", "%s %s should fail: %v, %v", k, n, got, err)
					case id > 0 && (err != nil || got.id != id || got.kind != k || got.conf != interface{}(conf)):
						vs.Fail("built", "%s %s should be the maker %d: %v, %v", k, n, id, got, err)
					}
				}
			}
		}
		vs.Outcome("%v", want)
	}}
}

// concurrent registrations and constructions are atomic.
func concurrent(sched int) vh.Scenario {
	return vh.Scenario{Name: "concurrent", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		r := &registry.Registry{}
		kind := kinds[vs.Choose(3)]
		nested := vs.Choose(2) == 1
		clock := 0
		tick := func() int { clock++; return clock }
		type reg struct{ id, from, to int }
		regs := []*reg{}
		add := func(id int) {
			g := &reg{id: id, from: tick(), to: 1 << 30}
			regs = append(regs, g)
			register(r, kind, "x", id, nested)
			g.to = tick()
		}
		use := func() {
			from := tick()
			got, err := build(r, kind, "x", nil)
			to := tick()
			id := 0
			if err == nil {
				id = got.id
			}
			ok := id == 0
			for _, g := range regs {
				// no other one has certainly replaced it
				if id == g.id && g.from < to {
					ok = true
					for _, o := range regs {
						if o.from > g.to && o.to < from {
							ok = false
						}
					}
				}
				if id == 0 && g.to < from {
					ok = false
				}
			}
			if !ok {
				vs.Fail("order", "the maker is %d (%v) in [%d,%d], registrations are %v", id, err, from, to, regs)
			}
		}
		left := 3
		vs.Spawn("r1", func() { add(1); use(); left-- })
		vs.Spawn("r2", func() { add(2); left-- })
		vs.Spawn("user", func() { use(); use(); left-- })
		vs.Wait("all", func() bool { return left == 0 })
		use()
		vs.Outcome("%v", regs)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "K02", Level: "model_checking",
		Rule: "every configuration of a component that deviates up to the bound from a usual one, compared by what the component does; every pair of assertion chains over every small value; every sequence and every schedule up to the bound of registrations and constructions",
		Scenarios: func(tier string) []vh.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{
				assertions(1, 1, 2),
				assertions(1+d, 2+d, 1),
				filesDB(2 + d),
				digest(),
				graphiteListener(),
				sequences(3 + d),
				concurrent(3 + 2*d),
			}
		}})
}
