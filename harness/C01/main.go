//go:build go1.21

// C01: every command does what it is for or says why not.
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/urfave/cli"
	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/external"
	"github.com/vivint/rothko/registry"
	"github.com/vivint/rothko/ui"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vsig"
)

const file = "rothko.toml"

// model is a database that writes everything, or refuses one value, or whose
// run fails.
type model struct {
	database.DB
	w    *world
	kind string
	n    int
}

func (m *model) Run(ctx context.Context) error {
	m.w.running++
	if m.kind == "broken" {
		return errors.New("database br0ken")
	}
	vs.Wait("database", func() bool { return vctx.Ended(ctx) })
	return nil
}

func (m *model) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	m.n++
	if m.kind == "failing" && m.n == 7 {
		cb(false, errors.New("write f4iled"))
		return nil
	}
	cb(true, nil)
	return nil
}

type world struct {
	dir     string
	out     *os.File
	running int // databases that were started
	created int // databases that were created
	procs   []*proc
	old     [2]*os.File
	names   map[string]bool
}

type proc struct {
	args   []string
	exited bool
	code   int
}

var current *world

func newWorld() *world {
	w := &world{}
	current = w
	external.Default = external.Resources{}
	w.dir = vdb.NewDir()
	if err := os.Mkdir(w.dir, 0755); err != nil {
		panic(err)
	}
	if err := os.Chdir(w.dir); err != nil {
		panic(err)
	}
	f, err := os.Create(filepath.Join(filepath.Dir(w.dir), "out"))
	if err != nil {
		panic(err)
	}
	w.out = f
	w.old = [2]*os.File{os.Stdout, os.Stderr}
	os.Stdout, os.Stderr, cli.ErrWriter = f, f, f
	return w
}

// close undoes newWorld. It has to be deferred.
func (w *world) close() {
	os.Stdout, os.Stderr = w.old[0], w.old[1]
	cli.ErrWriter = w.old[1]
	w.out.Close()
	os.Chdir("/")
	vdb.RmDir(w.dir)
}

// output is what the commands have printed.
func (w *world) output() string {
	b, _ := os.ReadFile(w.out.Name())
	return string(b)
}

// start runs a command in its own process. Arguments are global, so commands
// read them at once.
func (w *world) start(args ...string) *proc {
	p := &proc{args: args}
	w.procs = append(w.procs, p)
	vs.Spawn(fmt.Sprint(args), func() {
		cur := p
		os.Args = append([]string{"rothko"}, args...)
		byThread[vs.ThreadID()] = cur
		rothko.Main()
		vs.Fail("returned", "the command %q returns without an exit code", args)
	})
	return p
}

var byThread = map[int]*proc{}

func (w *world) wait(p *proc) { vs.Wait("exit", func() bool { return p.exited }) }

// put makes a file, as someone else.
func put(name, content string) {
	if err := os.WriteFile(name, []byte(content), 0600); err != nil {
		panic(err)
	}
}

// snapshot has everything in the directory.
func snapshot(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		s := rel + " " + fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		}
		out = append(out, s)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// states of a path.
const (
	missing   = iota
	initial   // the initial configuration
	empty     // an empty file
	other     // another good configuration
	garbage   // no configuration
	directory // no file
	states
)

var stateNames = []string{"missing", "initial", "empty", "other", "garbage", "directory"}

const good = "[main]\n duration = \"1s\"\n[database.model]\n[dist.exact]\n[api]\n address = \"api\"\n"

func (w *world) prepare(name string, state int) {
	switch state {
	case initial:
		put(name, config.InitialConfig)
	case empty:
		put(name, "")
	case other:
		put(name, good)
	case garbage:
		put(name, "this is [ not a configuration")
	case directory:
		if err := os.Mkdir(name, 0755); err != nil {
			panic(err)
		}
	}
}

// faults of the operations on the configuration file.
func faults(on bool) {
	if !on {
		vs.FS.Fault = nil
		return
	}
	vs.FS.Fault = func(op, path string) []error {
		switch op {
		case "create":
			return []error{syscall.EACCES, syscall.ENOSPC}
		case "write", "fsync", "rename", "link", "truncate":
			return []error{syscall.ENOSPC}
		case "close", "stat", "read", "open":
			return []error{syscall.EIO}
		}
		return nil
	}
}

// fails checks that a command has failed and has changed nothing.
func (w *world) fails(p *proc, before string, texts ...string) {
	out := w.output()
	if !p.exited || p.code == 0 {
		vs.Fail("code", "%q exits with %d. It printed:\n%s", p.args, p.code, out)
	}
	if strings.TrimSpace(out) == "" {
		vs.Fail("silent", "%q fails and says nothing", p.args)
	}
	for _, t := range texts {
		if !strings.Contains(out, t) {
			vs.Fail("message", "%q fails, and what it says does not have %q:\n%s", p.args, t, out)
		}
	}
	if now := snapshot(w.dir); now != before {
		vs.Fail("changed", "%q fails with %q and changes\n%s\nto\n%s", p.args, out, before, now)
	}
	if w.running > 0 || vnet.Listening("api") || vnet.Listening(":1111") {
		vs.Fail("running", "%q fails and has started something", p.args)
	}
}

// inits: the init command in every state, with faults.
func inits(env int) vh.Scenario {
	return vh.Scenario{Name: "init", Bound: vs.Bound{Env: env}, Weight: vh.Weight(1, false), Body: func() {
		w := newWorld()
		defer w.close()
		state := vs.Choose(states)
		w.prepare(file, state)
		args := [][]string{{"init"}, {"init", "a"}, {"init", file}, {"init", "--unknown"}, {"init", "a", "b"}}[vs.Choose(5)]
		before := snapshot(w.dir)
		faults(true)
		p := w.start(args...)
		w.wait(p)
		faults(false)
		if len(args) > 1 {
			w.fails(p, before, "Incorrect Usage")
			vs.Outcome("usage")
			return
		}
		if vs.Stats().Faults > 0 && p.code != 0 {
			w.fails(p, before)
			vs.Outcome("%s fault", stateNames[state])
			return
		}
		if state != missing {
			w.fails(p, before, file)
			vs.Outcome("%s", stateNames[state])
			return
		}
		w.created1(p)
		vs.Outcome("created")
	}}
}

// created1 checks that the command has created the configuration.
func (w *world) created1(p *proc) {
	if p.code != 0 {
		vs.Fail("code", "%q exits with %d: %s", p.args, p.code, w.output())
	}
	b, err := os.ReadFile(file)
	if err != nil || string(b) != config.InitialConfig {
		vs.Fail("content", "%q leaves %q, %v", p.args, b, err)
	}
	ents, _ := os.ReadDir(w.dir)
	if len(ents) != 1 {
		vs.Fail("content", "%q leaves %v", p.args, ents)
	}
	if !strings.Contains(w.output(), file) {
		vs.Fail("message", "%q does not say what it has created: %q", p.args, w.output())
	}
}

// together: the configuration is created by others at the same time.
func together(sched int, twice bool) vh.Scenario {
	name := "edited"
	if twice {
		name = "twice"
	}
	return vh.Scenario{Name: name, Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(1, false), Body: func() {
		w := newWorld()
		defer w.close()
		p := w.start("init")
		if twice {
			q := w.start("init")
			w.wait(p)
			w.wait(q)
			if p.code == 0 && q.code == 0 || p.code != 0 && q.code != 0 {
				vs.Fail("code", "two commands exit with %d and %d: %s", p.code, q.code, w.output())
			}
			if p.code != 0 {
				p, q = q, p
			}
			w.created1(p)
			vs.Outcome("%v", p == w.procs[0])
			return
		}
		made := 0
		vs.Spawn("user", func() {
			vs.Point("user")
			f, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
			if err != nil {
				made = 2
				return
			}
			fmt.Fprint(f, good)
			f.Close()
			made = 1
		})
		w.wait(p)
		vs.Wait("user", func() bool { return made > 0 })
		b, _ := os.ReadFile(file)
		if made == 1 && string(b) != good {
			vs.Fail("overwritten", "the configuration of the user is overwritten with %q", b)
		}
		if made == 1 && p.code == 0 {
			vs.Fail("code", "the configuration of the user is kept, but the command exits with %d", p.code)
		}
		if made == 2 {
			w.created1(p)
		}
		vs.Outcome("%d %d", made, p.code)
	}}
}

// starts: the run and the demo commands with all kinds of paths.
func starts(env int) vh.Scenario {
	return vh.Scenario{Name: "start", Bound: vs.Bound{Env: env}, Weight: vh.Weight(1, false), Opt: vs.Options{MaxIdleFires: 400}, Body: func() {
		w := newWorld()
		defer w.close()
		cmd := []string{"run", "demo"}[vs.Choose(2)]
		state := vs.Choose(states)
		w.prepare("the file", state)
		args := [][]string{{"the file"}, {}, {"the file", "the file"}, {""}, {"--unknown", "the file"}}[vs.Choose(5)]
		before := snapshot(w.dir)
		faults(len(args) != 1 || state != initial)
		p := w.start(append([]string{cmd}, args...)...)
		interrupted := false
		vs.Wait("started or ended", func() bool { return p.exited || cmd == "run" && vsig.Registered(syscall.SIGINT) > 0 })
		if !p.exited {
			vs.Quiesce()
			vsig.Raise(syscall.SIGINT)
			interrupted = true
			w.wait(p)
		}
		faults(false)
		switch {
		case len(args) != 1 || args[0] != "the file" && args[0] != "":
			w.fails(p, before, "Incorrect Usage")
		case args[0] == "" || state == missing || state == directory:
			w.fails(p, before)
		case state == empty || state == garbage:
			w.fails(p, before)
		case vs.Stats().Faults > 0 && p.code != 0:
			w.fails(p, before)
		default:
			if p.code != 0 || cmd == "run" && !interrupted {
				vs.Fail("code", "%q of a good configuration (%s) exits with %d: %s", p.args, stateNames[state], p.code, w.output())
			}
			if state == initial {
				ents, _ := os.ReadDir("data")
				if cmd == "demo" && len(ents) == 0 {
					vs.Fail("data", "the demo data has %v", ents)
				}
			} else if w.running != 1 {
				vs.Fail("data", "the database was started %d times", w.running)
			}
		}
		vs.Outcome("%s %s %d %d", cmd, stateNames[state], len(args), p.code)
	}}
}

// reasons: configurations that can not be run, and services that fail.
func reasons() vh.Scenario {
	type bad struct {
		cmds    string
		old     string
		new     string
		text    string
		running bool // the services were started
	}
	bads := []bad{
		{"run", "1s", "0s", "duration", false},
		{"run", "1s", "-5s", "duration", false},
		{"run demo", "1s", "5", "duration", false},
		{"run demo", "database.model", "database.unkn0wn", "unkn0wn", false},
		{"run demo", "dist.exact", "dist.unkn0wn", "unkn0wn", false},
		{"run demo", "[dist.exact]", "", "dist", false},
		{"run demo", "[database.model]", "", "database", false},
		{"run demo", "[database.model]", "[database.model]\n[database.other]", "database", false},
		{"run demo", "[database.model]", "[database.model", "", false},
		{"run", "[api]", "[[listeners.unkn0wn]]\n[api]", "unkn0wn", false},
		{"run", "[api]", "[[listeners.graphite]]\n address = 5\n[api]", "address", false},
		{"run", "[api]", "[[listeners.graphite]]\n address = \"api\"\n[api]", "in use", true},
		{"run", "[api]", "[[listeners.graphite]]\n address = \"same\"\n[[listeners.graphite]]\n address = \"same\"\n[api]", "in use", true},
		{"run demo", "database.model", "database.broken", "br0ken", true},
		{"demo", "database.model", "database.failing", "f4iled", true},
		{"run demo", "database.model", "database.failing.sub", "", true},
		{"run demo", "\"1s\"", "\"1s\"\n plugins = [\"/n0where.so\"]", "n0where", false},
	}
	return vh.Scenario{Name: "reasons", Weight: vh.Weight(1, false), Opt: vs.Options{MaxIdleFires: 400}, Body: func() {
		w := newWorld()
		defer w.close()
		b := bads[vs.Choose(len(bads))]
		cmds := strings.Fields(b.cmds)
		cmd := cmds[vs.Choose(len(cmds))]
		if !strings.Contains(good, b.old) {
			panic(b.old)
		}
		put("conf", strings.Replace(good, b.old, b.new, 1))
		before := snapshot(w.dir)
		p := w.start(cmd, "conf")
		interrupted := false
		vs.Wait("started or ended", func() bool { return p.exited || cmd == "run" && vsig.Registered(syscall.SIGINT) > 0 })
		if !p.exited {
			vs.Quiesce()
			if !p.exited {
				interrupted = true
				vsig.Raise(syscall.SIGINT)
				w.wait(p)
			}
		}
		if strings.HasSuffix(b.new, ".sub") {
			// the settings of the database are its own concern. one value
			// of the demo fails.
			if cmd == "run" != (p.code == 0) || cmd == "run" && !interrupted {
				vs.Fail("code", "%q exits with %d: %s", p.args, p.code, w.output())
			}
			return
		}
		if interrupted {
			vs.Fail("running", "%q was started with\n%s", p.args, strings.Replace(good, b.old, b.new, 1))
		}
		if b.running {
			w.running = 0
		}
		w.fails(p, before, b.text)
		vs.Outcome("%s %q %d", cmd, b.new, p.code)
	}}
}

// helps: commands that only print.
func helps() vh.Scenario {
	return vh.Scenario{Name: "help", Weight: vh.Weight(1, false), Body: func() {
		w := newWorld()
		defer w.close()
		w.prepare(file, vs.Choose(states))
		type line struct {
			args []string
			ok   bool
			text string
		}
		lines := []line{
			{nil, true, "demo"}, {[]string{"--help"}, true, "demo"}, {[]string{"-h"}, true, "demo"}, {[]string{"help"}, true, "demo"},
			{[]string{"--version"}, true, "0.0.1"}, {[]string{"-v"}, true, "0.0.1"},
			{[]string{"init", "--help"}, true, file}, {[]string{"run", "--help"}, true, "path to rothko config"}, {[]string{"demo", "-h"}, true, "path to rothko config"},
			{[]string{"help", "init"}, true, file}, {[]string{"help", "run"}, true, "path to rothko config"}, {[]string{"h", "demo"}, true, "path to rothko config"},
			{[]string{"unkn0wn"}, false, "unkn0wn"}, {[]string{"help", "unkn0wn"}, false, "unkn0wn"}, {[]string{"--unkn0wn"}, false, "unkn0wn"}, {[]string{"--unkn0wn", "init"}, false, "unkn0wn"},
			{[]string{file}, false, file}, {[]string{"Init"}, false, "Init"},
		}
		l := lines[vs.Choose(len(lines))]
		before := snapshot(w.dir)
		p := w.start(l.args...)
		w.wait(p)
		if !l.ok {
			w.fails(p, before, l.text)
			vs.Outcome("%v %d", l.args, p.code)
			return
		}
		if p.code != 0 {
			vs.Fail("code", "%q exits with %d: %s", p.args, p.code, w.output())
		}
		p.code = 1
		w.fails(p, before, l.text)
		vs.Outcome("%v", l.args)
	}}
}

func main() {
	ui.Tarball = nil
	syscall.Umask(022)
	for _, kind := range []string{"model", "broken", "failing", "other"} {
		kind := kind
		registry.RegisterDatabase(kind, registry.DatabaseMakerFunc(func(context.Context, interface{}) (database.DB, error) {
			current.created++
			return &model{w: current, kind: kind}, nil
		}))
	}
	registry.RegisterDistribution("exact", registry.DistributionMakerFunc(func(context.Context, interface{}) (dist.Params, error) {
		return vdata.Params{}, nil
	}))
	exit := func(code int) {
		p := byThread[vs.ThreadID()]
		if p == nil {
			vs.Fail("exit", "another thread exits")
		}
		p.exited, p.code = true, code
	}
	vs.OnExit = exit
	cli.OsExiter = vs.Exit
	vh.Main(vh.Check{ID: "C01", Level: "model_checking",
		Rule:        "every command with every number of arguments in every state of the configuration file, with up to the bound of failing file operations; every kind of refused configuration; all schedules of other creators of the file up to the bound",
		Assumptions: []string{"a failing write has written half; removing a file does not fail"},
		Scenarios: func(tier string) []vh.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{inits(2 + d), together(3+d, false), together(3+d, true), starts(1 + d), reasons(), helps()}
		}})
}
