package main

// C18: where the configuration comes from.

import (
	"fmt"
	"os"
	"os/user"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mozilla/crlite/go/config"
	sim "github.com/mozilla/crlite/go/verifsim"
)

// option is a documented option.
type option struct {
	name string
	kind string // "uint", "int", "bool", "string"
	def  string
	get  func(c *config.CTConfig) any
}

var options = []option{
	{"batchSize", "uint", "4096", func(c *config.CTConfig) any { return *c.BatchSize }},
	{"remoteSettingsURL", "string", "", func(c *config.CTConfig) any { return *c.RemoteSettingsURL }},
	{"ctLogMetadata", "string", "", func(c *config.CTConfig) any { return *c.CTLogMetadata }},
	{"numThreads", "int", "1", func(c *config.CTConfig) any { return *c.NumThreads }},
	{"logExpiredEntries", "bool", "false", func(c *config.CTConfig) any { return *c.LogExpiredEntries }},
	{"runForever", "bool", "false", func(c *config.CTConfig) any { return *c.RunForever }},
	{"pollingDelay", "uint", "600", func(c *config.CTConfig) any { return *c.PollingDelay }},
	{"remoteSettingsUpdateInterval", "uint", "3600", func(c *config.CTConfig) any { return *c.RemoteSettingsUpdateInterval }},
	{"savePeriod", "string", "15m", func(c *config.CTConfig) any { return *c.SavePeriod }},
	{"certPath", "string", "", func(c *config.CTConfig) any { return *c.CertPath }},
	{"googleProjectId", "string", "", func(c *config.CTConfig) any { return *c.GoogleProjectId }},
	{"redisHost", "string", "", func(c *config.CTConfig) any { return *c.RedisHost }},
	{"redisTimeout", "string", "5s", func(c *config.CTConfig) any { return *c.RedisTimeout }},
	{"statsRefreshPeriod", "string", "10m", func(c *config.CTConfig) any { return *c.StatsRefreshPeriod }},
	{"statsdHost", "string", "", func(c *config.CTConfig) any { return *c.StatsDHost }},
	{"statsdPort", "int", "8125", func(c *config.CTConfig) any { return *c.StatsDPort }},
	{"healthAddr", "string", ":8080", func(c *config.CTConfig) any { return *c.HealthAddr }},
}

// text is a source's text for an option.
type text struct {
	name, text string
	absent     bool
	value      string // what it means
	skip       bool   // it must be passed over
	either     bool   // it may be passed over
}

// texts of a kind for the environment or for a file.
func texts(kind string, file bool) []text {
	l := []text{{name: "absent", absent: true}}
	ok := func(v ...string) {
		for _, s := range v {
			l = append(l, text{name: s, text: s, value: s})
		}
	}
	bad := func(v ...string) {
		for _, s := range v {
			l = append(l, text{name: fmt.Sprintf("malformed %q", s), text: s, skip: true})
		}
	}
	odd := func(s, v string) {
		l = append(l, text{name: fmt.Sprintf("odd %q", s), text: s, value: v, either: true})
	}
	switch kind {
	case "uint":
		ok("7", "8", "1", "4294967297", "18446744073709551615")
		ok("0")
		odd("007", "7")
		odd("0x10", "16")
		bad("", "abc", "-1", "1.5", "18446744073709551616", "7 threads", "1e3", "true", "+-7")
	case "int":
		ok("7", "8", "1", "2147483647")
		ok("0", "-3")
		odd("+7", "7")
		odd("2147483648", "2147483648")
		bad("", "abc", "1.5", "9223372036854775808", "7 threads", "1e3", "true", "--7")
	case "bool":
		ok("true", "false")
		for s, v := range map[string]string{"1": "true", "0": "false", "TRUE": "true", "False": "false", "T": "true", "f": "false"} {
			l = append(l, text{name: s, text: s, value: v})
		}
		sortTexts(l[3:])
		odd("yes", "true")
		odd("off", "false")
		bad("", "abc", "2", "tru", "-1", "truefalse")
	case "string":
		ok("x", "localhost:6379", "[{\"a\": 1}]", "30s", "/tmp/a b")
		if file {
			bad("")
		} else {
			l = append(l, text{name: "empty", value: ""}, text{name: "padded", text: " x ", value: " x "})
		}
	}
	return l
}

func sortTexts(l []text) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].name < l[i].name {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

func labelsOf(l []text) (r []string) {
	for _, t := range l {
		r = append(r, t.name)
	}
	return
}

// admit is the set of values an option may take given its sources, highest first.
func admit(def string, sources ...text) map[string]bool {
	for i, t := range sources {
		if t.absent || t.skip {
			continue
		}
		if !t.either {
			return map[string]bool{t.value: true}
		}
		m := admit(def, sources[i+1:]...)
		m[t.value] = true
		return m
	}
	return map[string]bool{def: true}
}

type confCase struct {
	env  map[string]string
	file string // content
	how  int    // 0 -config, 1 the default place, 2 both, where the default one must not count
	args []string
}

// read runs Init.
func (e *env) read(x *sim.Exec, k confCase) (*config.CTConfig, *sim.Proc) {
	user.VerifHome = e.path("home")
	defer func() { user.VerifHome = "" }()
	def := e.path("home/.ct-fetch.ini")
	fatalIf(os.MkdirAll(filepath.Dir(def), 0o755))
	args := []string{"ct-fetch"}
	switch k.how {
	case 0, 2:
		if k.file != "" {
			e.put("conf.ini", []byte(k.file), base)
			args = append(args, "-config", e.path("conf.ini"))
			if k.how == 2 {
				var l []string
				for _, o := range options {
					l = append(l, o.name+" = 99")
				}
				fatalIf(os.WriteFile(def, []byte(strings.Join(l, "\n")), 0o644))
			}
		}
	case 1:
		if k.file != "" {
			fatalIf(os.WriteFile(def, []byte(k.file), 0o644))
		}
	}
	args = append(args, k.args...)
	var c *config.CTConfig
	p := e.w.Spawn("C", func(p *sim.Proc) {
		sim.RunCommand(args, k.env, func() {
			n := config.NewCTConfig()
			n.Init()
			c = n
		})
	})
	if !e.w.RunAll(p) || p.Panic != nil {
		x.Fail("C18-stuck", "reading the configuration did not end: %v", p.Panic)
	}
	return c, p
}

func (o option) value(c *config.CTConfig) string { return fmt.Sprint(o.get(c)) }

func iniLine(o option, t text, style int) string {
	switch style {
	case 1:
		return o.name + "=" + t.text + "\n"
	case 2:
		return "# comment\n; another\n\n" + o.name + "  =  \"" + t.text + "\"\nunknownOption = 5\n"
	}
	return o.name + " = " + t.text + "\n"
}

func optionNames() (r []string) {
	for _, o := range options {
		r = append(r, o.name)
	}
	return
}

// check compares all options with what may be.
func confCheck(x *sim.Exec, c *config.CTConfig, may map[string]map[string]bool) {
	var out []string
	for _, o := range options {
		m := may[o.name]
		if m == nil {
			m = map[string]bool{o.def: true}
		}
		v := o.value(c)
		if !m[v] {
			x.Fail("C18-value", "%s is %q, want %q", o.name, v, keysOf(m))
			return
		}
		if v != o.def {
			out = append(out, o.name)
		}
	}
	x.Outcome = strings.Join(out, " ")
}

func configScenarios() []*sim.Scenario {
	flags := []text{{name: "absent", absent: true}, {name: "7", text: "7", value: "7"}, {name: "16384", text: "16384", value: "16384"}, {name: "0", text: "0", value: "0", either: true}}
	one := &sim.Scenario{Name: "sources", Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		o := options[x.C.ChooseN("option", "", optionNames()...)]
		ev, fv := texts(o.kind, false), texts(o.kind, true)
		et := ev[x.C.ChooseN("environment", "", labelsOf(ev)...)]
		ft := fv[x.C.ChooseN("file", "", labelsOf(fv)...)]
		k := confCase{env: map[string]string{}}
		var top text
		top.absent = true
		if o.name == "batchSize" {
			top = flags[x.C.ChooseN("flag", "", labelsOf(flags)...)]
			if !top.absent {
				k.args = []string{"-batchSize", top.text}
			}
		}
		if !et.absent {
			k.env[o.name] = et.text
		}
		if !ft.absent {
			style := x.C.ChooseN("style", "", "spaced", "tight", "quoted")
			if style == 2 && strings.Contains(ft.text, `"`) {
				style = 0
			}
			k.file = iniLine(o, ft, style)
			k.how = x.C.ChooseN("place", "", "-config", "default", "both")
		}
		c, p := e.read(x, k)
		if x.Failed() {
			return
		}
		if c == nil {
			x.Fail("C18-exit", "the program ended (%d) with env %q, file %q, flags %q", p.ExitCode, k.env[o.name], k.file, k.args)
			return
		}
		confCheck(x, c, map[string]map[string]bool{o.name: admit(o.def, top, et, ft)})
	}}
	pairs := &sim.Scenario{Name: "pairs", Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		a := x.C.ChooseN("first", "", optionNames()...)
		b := x.C.ChooseN("second", "", optionNames()...)
		k := confCase{env: map[string]string{}}
		may := map[string]map[string]bool{}
		pick := func(i int, v string, label string) {
			o := options[i]
			good := func(n int) text {
				switch o.kind {
				case "bool":
					return text{text: "true", value: "true"}
				case "string":
					return text{text: v + strconv.Itoa(n), value: v + strconv.Itoa(n)}
				}
				s := strconv.Itoa(n + 10*len(v))
				return text{text: s, value: s}
			}
			bad := text{text: "!?", skip: true}
			if o.kind == "string" {
				bad = good(3)
			}
			et, ft := text{absent: true}, text{absent: true}
			switch x.C.ChooseN(label, "", "nowhere", "environment", "file", "both", "malformed environment", "malformed file", "malformed environment, file") {
			case 1:
				et = good(1)
			case 2:
				ft = good(2)
			case 3:
				et, ft = good(1), good(2)
			case 4:
				et = bad
			case 5:
				ft = bad
			case 6:
				et, ft = bad, good(2)
			}
			if !et.absent {
				k.env[o.name] = et.text
			}
			if !ft.absent {
				k.file += iniLine(o, ft, 0)
			}
			may[o.name] = admit(o.def, et, ft)
		}
		pick(a, "v", "first from")
		if a != b {
			pick(b, "ww", "second from")
		}
		k.how = x.C.ChooseN("place", "", "-config", "default")
		if k.file == "" && k.how == 1 {
			return
		}
		c, p := e.read(x, k)
		if x.Failed() {
			return
		}
		if c == nil {
			x.Fail("C18-exit", "the program ended (%d) with env %v, file %q", p.ExitCode, k.env, k.file)
			return
		}
		confCheck(x, c, may)
	}}
	files := &sim.Scenario{Name: "files", Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		names := []string{"absent", "empty", "not a file of options", "an unclosed section", "a directory", "binary", "options in a section", "an option twice", "a line without a value", "windows line ends", "a byte order mark", "no final newline", "wrong case"}
		f := x.C.ChooseN("file", "", names...)
		o := options[x.C.ChooseN("option", "", optionNames()...)]
		good := map[string]string{"uint": "7", "int": "7", "bool": "true", "string": "x"}[o.kind]
		line := o.name + " = " + good + "\n"
		k := confCase{env: map[string]string{}}
		want := map[string]bool{o.def: true}
		args := []string{"-config", e.path("conf.ini")}
		set := map[string]bool{good: true}
		both := map[string]bool{good: true, o.def: true}
		switch f {
		case 1:
			e.put("conf.ini", nil, base)
		case 2:
			e.put("conf.ini", []byte("{\"a\": 1}\nhello\n"), base)
		case 3:
			e.put("conf.ini", []byte(line+"[unclosed\n"), base)
			want = both
		case 4:
			fatalIf(os.MkdirAll(e.path("conf.ini"), 0o755))
		case 5:
			e.put("conf.ini", []byte{0, 1, 2, 255, 10, '=', 3}, base)
		case 6:
			e.put("conf.ini", []byte("[other]\n"+line), base)
			want = both
		case 7:
			e.put("conf.ini", []byte(line+line), base)
			want = set
		case 8:
			e.put("conf.ini", []byte(o.name+"\n"), base)
		case 9:
			e.put("conf.ini", []byte(strings.ReplaceAll("unknown = 3\n"+line+"\n", "\n", "\r\n")), base)
			want = set
		case 10:
			e.put("conf.ini", []byte("\xef\xbb\xbf"+line), base)
			want = both
		case 11:
			e.put("conf.ini", []byte(strings.TrimSpace(line)), base)
			want = set
		case 12:
			e.put("conf.ini", []byte(strings.ToUpper(line)), base)
			want = both
			want[strings.ToUpper(good)] = true
		}
		env := x.C.ChooseN("environment", "", "absent", "set") == 1
		if env {
			v := map[string]string{"uint": "9", "int": "9", "bool": "false", "string": "env"}[o.kind]
			k.env[o.name] = v
			want = map[string]bool{v: true}
		}
		k.args = args
		c, p := e.read(x, k)
		if x.Failed() {
			return
		}
		if c == nil {
			if f == 0 || p.Panic != nil {
				x.Fail("C18-exit", "the program ended (%d) with file %q", p.ExitCode, names[f])
			}
			x.Outcome = "exit"
			return
		}
		confCheck(x, c, map[string]map[string]bool{o.name: want})
	}}
	all := &sim.Scenario{Name: "all", Bubble: true, Run: func(x *sim.Exec) {
		// every option set at once, each from its own source
		e := newEnv(x)
		defer e.done()
		shift := x.C.ChooseN("shift", "", "0", "1", "2", "3")
		k := confCase{env: map[string]string{}, how: x.C.ChooseN("place", "", "-config", "default", "both")}
		may := map[string]map[string]bool{}
		for i, o := range options {
			n := strconv.Itoa(20 + i)
			t := text{text: n, value: n}
			if o.kind == "bool" {
				t = text{text: "true", value: "true"}
			}
			low := text{text: "5", value: "5"}
			if o.kind == "bool" {
				low = text{text: "false", value: "false"}
			}
			none := text{absent: true}
			switch (i + shift) % 4 {
			case 0:
				k.env[o.name] = t.text
				may[o.name] = admit(o.def, t)
			case 1:
				k.file += iniLine(o, t, i%2)
				may[o.name] = admit(o.def, none, t)
			case 2:
				k.env[o.name] = t.text
				k.file += iniLine(o, low, i%2)
				may[o.name] = admit(o.def, t, low)
			case 3:
				if k.how != 2 {
					break
				}
			}
		}
		// as another name
		k.env["unrelated"], k.env["BATCHSIZE"], k.env["batchsize"] = "77", "78", "79"
		c, p := e.read(x, k)
		if x.Failed() {
			return
		}
		if c == nil {
			x.Fail("C18-exit", "the program ended (%d)", p.ExitCode)
			return
		}
		confCheck(x, c, may)
	}}
	return []*sim.Scenario{one, pairs, files, all}
}
