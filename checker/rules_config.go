package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Value-flow analysis of start-up (flag to configuration to listening addresses, failure paths to process exit), path-sensitive analysis of configuration loading per kind of path, field-by-field comparison of the logging configuration, and matching of every key of the shipped configuration files (embedded and on disk) against the fields the decoder can bind.", 40, checkC25)
}

const pConfig = "internal/config"

func checkC25(c *Check) {
	c.configLoad()
	c.configLog()
	c.configSinks()
	c.configKeys()
	c.startup()
}

// configLoad: where the configuration comes from.
func (c *Check) configLoad() {
	e := c.e
	where := "internal/config/config.go"
	pathSym := Sym("path", types.Typ[types.String])
	for _, v := range []struct {
		inst  string
		arg   *Term
		asset string
	}{
		{"server default", StrC("embedded-default-server-config"), "configs/default.yaml"},
		{"client default", StrC("embedded-default-client-config"), "test/client/configs/default.yaml"},
		{"own file", pathSym, ""},
	} {
		c.guard("source", v.inst, where, func() {
			f := e.needFn(pConfig, "Load")
			w := c.fnAt(f)
			for k, n := range map[string]string{"DefaultServConfKey": "embedded-default-server-config", "DefaultCliConfKey": "embedded-default-client-config"} {
				// the keys are the flag defaults of the two programs
				if o, ok := e.pkg(pConfig).Members[k].(*ssa.NamedConst); ok {
					if v.arg == StrC(n) {
						v.arg = StrC(constant.StringVal(o.Value.Value))
					}
				} else {
					giveUp("anchor not found: constant %s", k)
				}
			}
			st := e.newState()
			if v.arg == pathSym {
				for _, k := range []string{"DefaultServConfKey", "DefaultCliConfKey"} {
					o := e.pkg(pConfig).Members[k].(*ssa.NamedConst)
					st.assume(Not(eqStr(pathSym, StrC(constant.StringVal(o.Value.Value)), st)))
				}
			}
			content := Sym("content", types.NewSlice(types.Typ[types.Uint8]))
			badRead := ErrSentinel("x", "read")
			badUn := ErrSentinel("x", "unmarshal")
			badAsset := ErrSentinel("x", "asset")
			e.execOnce = true
			e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
				ok := func(name string, er *Term) []callRes {
					s := st.clone()
					s.emit(&Event{Kind: stageKind, Name: name + " failed", Args: args, Pos: ci.Pos()})
					st.emit(&Event{Kind: stageKind, Name: name, Args: args, Pos: ci.Pos()})
					return []callRes{{st: st, val: Nil}, {st: s, val: er}}
				}
				if nm == modPath+"/"+pConfig+".Asset" {
					rs := ok("Asset", badAsset)
					return []callRes{{st: rs[0].st, val: Tuple(content, Nil)}, {st: rs[1].st, val: Tuple(Nil, badAsset)}}, true
				}
				if nm == modPath+"/"+pConfig+".MustAsset" {
					rs := ok("Asset", badAsset)
					return []callRes{{st: rs[0].st, val: content}, {st: rs[1].st, kind: outPanic, why: "asset"}}, true
				}
				if !strings.Contains(nm, "github.com/spf13/viper.") {
					return nil, false
				}
				switch nm[strings.LastIndex(nm, ".")+1:] {
				case "ReadConfig":
					return ok("ReadConfig", badRead), true
				case "ReadInConfig":
					return ok("ReadInConfig", badRead), true
				case "Unmarshal", "UnmarshalExact":
					return ok("Unmarshal", badUn), true
				case "AutomaticEnv", "BindEnv", "MustBindEnv", "BindPFlag", "BindPFlags", "BindFlagValue", "BindFlagValues", "Set", "MergeConfig", "MergeInConfig", "MergeConfigMap", "RegisterAlias", "AddRemoteProvider", "AddSecureRemoteProvider", "ReadRemoteConfig", "WatchConfig", "WatchRemoteConfig":
					c.fail("source", v.inst+": other sources", c.at(ci.Pos()), "%s lets settings come from elsewhere than the configuration", nm)
				case "SetConfigFile":
					st.emit(&Event{Kind: stageKind, Name: "SetConfigFile", Args: args, Pos: ci.Pos()})
					return []callRes{{st: st, val: Nil}}, true
				}
				return nil, false
			}
			outs := c.run(st, f, v.arg)
			e.callHook, e.execOnce = nil, false
			good := 0
			for _, o := range outs {
				evs := map[string][]*Event{}
				failed := ""
				for _, ev := range stages(o.st) {
					if strings.HasSuffix(ev.Name, " failed") {
						failed = ev.Name
					}
					evs[ev.Name] = append(evs[ev.Name], ev)
				}
				if failed != "" {
					c.must(o.kind == outPanic || o.kind == outExit && o.why != "blocks forever", "load-failure", v.inst+": "+failed, w, "the program goes on after %s", failed)
					continue
				}
				if !c.must(o.kind == outRet, "source", v.inst, w, "loading ends by %s without a failure", o.why) {
					continue
				}
				good++
				last := func(n string) *Event {
					if len(evs[n]) == 0 {
						return nil
					}
					return evs[n][len(evs[n])-1]
				}
				if v.asset != "" {
					a := last("Asset")
					if c.must(a != nil, "source", v.inst, w, "the embedded configuration is not read") {
						c.must(sameTerm(o.st, a.Args[0], StrC(v.asset)), "source", v.inst, w, "the embedded file read is %s, expected %s", a.Args[0], v.asset)
					}
					if rc := last("ReadConfig"); rc != nil {
						src := unwrapIface(rc.Args[len(rc.Args)-1])
						if src.K == KAlloc && o.st.heap[src] != nil {
							if got, ok := o.st.heap[src].cells[pathContent]; ok {
								c.must(sameTerm(o.st, got, o.st.seqOfSlice(content)), "source", v.inst+" unchanged", w, "what is parsed is not the embedded configuration but %s", got)
							}
						}
					}
					c.must(last("ReadConfig") != nil && last("ReadInConfig") == nil, "source", v.inst+" parsed", w, "the embedded configuration is not what is parsed")
				} else {
					s := last("SetConfigFile")
					if c.must(s != nil, "source", v.inst, w, "the given path is not used") {
						c.must(sameTerm(o.st, s.Args[len(s.Args)-1], v.arg), "source", v.inst, w, "the file read is %s, not the given path", s.Args[len(s.Args)-1])
					}
					c.must(last("ReadInConfig") != nil && last("ReadConfig") == nil, "source", v.inst+" parsed", w, "the given file is not what is parsed")
				}
				u := last("Unmarshal")
				if c.must(u != nil, "source", v.inst+" decoded", w, "the configuration is not decoded") {
					tgt := false
					for _, a := range u.Args {
						if a.K == KIface {
							a = a.A[0]
						}
						tgt = tgt || a == o.vals[0]
					}
					c.must(tgt && o.st.isNonNil(o.vals[0]), "source", v.inst+" returned", w, "the configuration returned is not the one decoded")
				}
			}
			c.must(good > 0, "source", v.inst, w, "loading has no good outcome")
		})
	}
}

// configLog: the logging section, field by field.
func (c *Check) configLog() {
	e := c.e
	where := "internal/config/config.go"
	levels := map[string]int64{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3, "FATAL": 4}
	var names []string
	for n := range levels {
		names = append(names, n)
	}
	sort.Strings(names)
	fields := [][2]string{{"ConsoleLoggingEnabled", "ConsoleEnable"}, {"EncodeLogsAsJSON", "PrintAsJSON"}, {"FileLoggingEnabled", "FileEnable"},
		{"Directory", "LogDirectory"}, {"Filename", "LogFile"}, {"MaxSize", "MaxSizeOfRolling"}, {"MaxBackups", "MaxBackupsOfRolling"}, {"MaxAge", "MaxAgeOfRolling"}}
	for _, n := range names {
		c.guard("log-config", n, where, func() {
			f := e.needMethod(pConfig, "Config", "ParseLogConf")
			cT := e.needTyp(pConfig, "Config")
			lT := e.needTyp("pkg/logger", "Config")
			st := e.newState()
			cfg := Sym("cfg", f.Params[0].Type())
			e.nonNil(st, cfg)
			lg := st.get(cfg, cT, "Log")
			e.nonNil(st, lg)
			st.set(cfg, cT, "Log.LogLevel", StrC(n))
			k := 0
			for _, o := range c.run(st, f, cfg) {
				if !c.must(o.kind == outRet, "log-config", n, c.fnAt(f), "ends by %s", o.why) {
					continue
				}
				k++
				got := o.st.get(o.vals[0], lT, "LogLevel")
				c.must(sameTerm(o.st, got, Int(levels[n])), "log-config", n, c.fnAt(f), "level %s becomes %s, expected %d", n, got, levels[n])
				for _, p := range fields {
					got, want := o.st.get(o.vals[0], lT, p[0]), st.get(cfg, cT, "Log."+p[1])
					c.must(sameTerm(o.st, got, want), "log-config", p[0], c.fnAt(f), "%s is %s, not the configured %s", p[0], got, p[1])
				}
			}
			c.must(k > 0, "log-config", n, c.fnAt(f), "no outcome")
		})
	}
	c.guard("log-level", "applied", "pkg/logger/logger.go", func() {
		f := e.needFn("pkg/logger", "Configure")
		lT := e.needTyp("pkg/logger", "Config")
		st := e.newState()
		cfg := Sym("logcfg", f.Params[0].Type())
		e.nonNil(st, cfg)
		lvl := st.get(cfg, lT, "LogLevel")
		e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
			if nm == "(github.com/rs/zerolog.Logger).Level" || nm == "github.com/rs/zerolog.SetGlobalLevel" {
				st.emit(&Event{Kind: stageKind, Name: "Level", Args: args, Pos: ci.Pos()})
			}
			return nil, false
		}
		outs := c.run(st, f, cfg)
		e.callHook = nil
		n := 0
		for _, o := range outs {
			if o.kind != outRet {
				continue
			}
			n++
			sg := stages(o.st)
			if c.must(len(sg) > 0, "log-level", "applied", c.fnAt(f), "the configured level is not applied to the logger") {
				l := sg[len(sg)-1].Args
				c.must(sameTerm(o.st, l[len(l)-1], lvl), "log-level", "applied", c.fnAt(f), "the logger's level is %s, not the configured one", l[len(l)-1])
			}
		}
		c.must(n > 0, "log-level", "applied", c.fnAt(f), "no outcome")
	})
}

// logSink is a place log lines end up in.
type logSink struct {
	name string // "stderr", "stdout", "file"
	ptr  *Term
	t    types.Type
	text bool // through a console writer
}

// logSinks follows a writer value to the places it writes to.
func (c *Check) logSinks(st *State, w *Term, text bool, depth int) (out []logSink) {
	if w == nil || isNil(w) || depth > 8 {
		return nil
	}
	switch w.K {
	case KCall:
		for _, a := range w.A {
			q := st.seqOfSlice(a)
			if q.K != KSeq {
				giveUp("the list of log writers is not known: %s", q)
			}
			for _, x := range q.A {
				if x.K != KSElem {
					giveUp("the list of log writers is not known: %s", q)
				}
				out = append(out, c.logSinks(st, x.A[0], text, depth+1)...)
			}
		}
		return out
	case KIface:
		t := w.T
		v := w.A[0]
		if p, ok := t.Underlying().(*types.Pointer); ok {
			switch types.TypeString(p.Elem(), nil) {
			case "gopkg.in/natefinch/lumberjack.v2.Logger":
				return []logSink{{"file", v, p.Elem(), text}}
			case "github.com/rs/zerolog.ConsoleWriter":
				return c.logSinks(st, st.get(v, p.Elem(), "Out"), true, depth+1)
			case "os.File":
				for _, n := range []string{"Stderr", "Stdout"} {
					if strings.Contains(v.String(), "os."+n) {
						return []logSink{{strings.ToLower(n), v, p.Elem(), text}}
					}
				}
			}
		}
		if types.TypeString(t, nil) == "github.com/rs/zerolog.ConsoleWriter" {
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Out" && v.K == KStruct && i < len(v.A) {
					return c.logSinks(st, v.A[i], true, depth+1)
				}
			}
		}
		giveUp("log writer of type %s", t)
	}
	giveUp("log writer %s", w)
	return nil
}

// configSinks: the configured outputs, and no others, receive the log.
func (c *Check) configSinks() {
	e := c.e
	where := "pkg/logger/logger.go"
	for m := 0; m < 8; m++ {
		on := func(b int) bool { return m>>b&1 == 1 }
		inst := fmt.Sprintf("console=%v file=%v json=%v", on(0), on(1), on(2))
		c.guard("log-output", inst, where, func() {
			f := e.needFn("pkg/logger", "Configure")
			lT := e.needTyp("pkg/logger", "Config")
			st := e.newState()
			cfg := Sym("logcfg", f.Params[0].Type())
			e.nonNil(st, cfg)
			for b, n := range []string{"ConsoleLoggingEnabled", "FileLoggingEnabled", "EncodeLogsAsJSON"} {
				st.set(cfg, lT, n, Bool(on(b)))
			}
			want := map[string]*Term{}
			for _, n := range []string{"Directory", "Filename", "MaxSize", "MaxBackups", "MaxAge"} {
				want[n] = st.get(cfg, lT, n)
			}
			e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
				switch nm {
				case "io.MultiWriter", "github.com/rs/zerolog.MultiLevelWriter":
					w := e.fresh("writers", nil, args[0])
					e.nonNil(st, w)
					return []callRes{{st: st, val: w}}, true
				case "github.com/rs/zerolog.New":
					st.emit(&Event{Kind: stageKind, Name: "New", Args: args, Pos: ci.Pos()})
				case "os.MkdirAll":
					return []callRes{{st: st, val: Nil}}, true
				}
				return nil, false
			}
			outs := c.run(st, f, cfg)
			e.callHook = nil
			w := c.fnAt(f)
			k := 0
			for _, o := range outs {
				if !c.must(o.kind == outRet, "log-output", inst, w, "ends by %s", o.why) {
					continue
				}
				k++
				sg := stages(o.st)
				if !c.must(len(sg) > 0, "log-output", inst, w, "no logger is made") {
					continue
				}
				con, fil := 0, 0
				for _, s := range c.logSinks(o.st, sg[len(sg)-1].Args[0], false, 0) {
					if s.name != "file" {
						con++
						continue
					}
					fil++
					c.must(s.text != on(2), "log-output", "json", w, "with %s the file is written as text: %v", inst, s.text)
					for _, n := range []string{"MaxSize", "MaxBackups", "MaxAge"} {
						got := o.st.get(s.ptr, s.t, n)
						c.must(sameTerm(o.st, got, want[n]), "log-output", n, w, "the log file's %s is %s, not the configured one", n, got)
					}
					fn := o.st.get(s.ptr, s.t, "Filename")
					uses := func(x *Term) bool { return occurs(fn, func(t *Term) bool { return t == x }) }
					c.must(uses(want["Directory"]) && uses(want["Filename"]), "log-output", "path", w, "the log file's path %s is not made of the configured directory and file name", fn)
				}
				c.must((con > 0) == on(0), "log-output", inst, w, "the log goes to the console: %v", con > 0)
				c.must(con <= 1 && fil <= 1, "log-output", inst, w, "a log line is written %d times to the console and %d times to the file", con, fil)
				c.must((fil > 0) == on(1), "log-output", inst, w, "the log goes to the file: %v", fil > 0)
			}
			c.must(k > 0, "log-output", inst, w, "no outcome")
		})
	}
}

// ---- shipped configuration files ----

type yamlKV struct {
	path []string
	val  string
	leaf bool
	line int
}

// yamlKeys reads the mapping-only subset of YAML the shipped files use.
func yamlKeys(data []byte) (out []yamlKV, err error) {
	type lvl struct {
		ind int
		key string
	}
	var stack []lvl
	for i, line := range strings.Split(string(data), "\n") {
		t := strings.TrimRight(line, " \r")
		s := strings.TrimLeft(t, " ")
		if s == "" || s[0] == '#' || s == "---" {
			continue
		}
		if strings.HasPrefix(s, "- ") || strings.Contains(t, "\t") {
			return nil, fmt.Errorf("line %d: not a plain mapping", i+1)
		}
		k := strings.Index(s, ":")
		if k <= 0 {
			return nil, fmt.Errorf("line %d: no key", i+1)
		}
		key := strings.Trim(s[:k], `"' `)
		val := strings.TrimSpace(s[k+1:])
		if strings.HasPrefix(val, `"`) {
			if j := strings.Index(val[1:], `"`); j >= 0 {
				val = val[1 : j+1]
			}
		} else if j := strings.Index(val, " #"); j >= 0 {
			val = strings.TrimSpace(val[:j])
		} else if strings.HasPrefix(val, "#") {
			val = ""
		}
		ind := len(t) - len(s)
		for len(stack) > 0 && stack[len(stack)-1].ind >= ind {
			stack = stack[:len(stack)-1]
		}
		stack = append(stack, lvl{ind, key})
		var p []string
		for _, l := range stack {
			p = append(p, l.key)
		}
		out = append(out, yamlKV{path: p, val: val, line: i + 1})
	}
	for i := range out {
		out[i].leaf = i+1 >= len(out) || len(out[i+1].path) <= len(out[i].path)
	}
	return out, nil
}

// bindKey finds the field the decoder binds a key to: viper decodes with
// mapstructure, which goes by the mapstructure tag or else the field's name,
// without regard to case.
func bindKey(t types.Type, key string) types.Type {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			continue
		}
		n := s.Field(i).Name()
		if tag, ok := reflect.StructTag(s.Tag(i)).Lookup("mapstructure"); ok {
			if x := strings.Split(tag, ",")[0]; x != "" {
				n = x
			}
		}
		if strings.EqualFold(n, key) {
			return s.Field(i).Type()
		}
	}
	return nil
}

// embedded finds the data of an embedded file: the table entry named after it
// leads through functions of the package to a gzip constant.
func (c *Check) embedded(name string) []byte {
	e := c.e
	var pk = func() (files []*ast.File, info *types.Info) {
		for _, p := range e.ppkgs {
			if p.PkgPath == modPath+"/"+pConfig {
				return p.Syntax, p.TypesInfo
			}
		}
		giveUp("package %s not found", pConfig)
		return nil, nil
	}
	files, info := pk()
	// declarations by object
	decl := map[types.Object]ast.Node{}
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					decl[info.Defs[d.Name]] = d.Body
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i, n := range vs.Names {
							if i < len(vs.Values) {
								decl[info.Defs[n]] = vs.Values[i]
							}
						}
					}
				}
			}
		}
	}
	gz := func(n ast.Node) (out []byte) {
		ast.Inspect(n, func(x ast.Node) bool {
			if ex, ok := x.(ast.Expr); ok && out == nil {
				if tv, ok := info.Types[ex]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
					if s := constant.StringVal(tv.Value); strings.HasPrefix(s, "\x1f\x8b") {
						if r, err := gzip.NewReader(bytes.NewReader([]byte(s))); err == nil {
							if b, err := io.ReadAll(r); err == nil {
								out = b
							}
						}
					}
				}
			}
			return out == nil
		})
		return
	}
	// the entry
	var entry ast.Node
	for _, f := range files {
		ast.Inspect(f, func(x ast.Node) bool {
			cl, ok := x.(*ast.CompositeLit)
			if !ok {
				return true
			}
			for _, el := range cl.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					if tv, ok := info.Types[kv.Key]; ok && tv.Value != nil && tv.Value.Kind() == constant.String && constant.StringVal(tv.Value) == name && entry == nil {
						entry = kv.Value
					}
				}
			}
			return true
		})
	}
	if entry == nil {
		giveUp("no embedded file %s", name)
	}
	seen := map[types.Object]bool{}
	work := []ast.Node{entry}
	var shared = map[string]bool{"bindataRead": true}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if b := gz(n); b != nil {
			return b
		}
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				o := info.Uses[id]
				if o != nil && decl[o] != nil && !seen[o] && !shared[o.Name()] {
					seen[o] = true
					work = append(work, decl[o])
				}
			}
			return true
		})
	}
	giveUp("the data of embedded file %s was not found", name)
	return nil
}

func (c *Check) configKeys() {
	e := c.e
	for _, v := range []struct{ name, side string }{{"configs/default.yaml", "server"}, {"test/client/configs/default.yaml", "client"}} {
		for _, emb := range []bool{true, false} {
			inst := v.side
			if emb {
				inst += ", embedded"
			}
			c.guard("keys", inst, v.name, func() {
				var data []byte
				if emb {
					data = c.embedded(v.name)
				} else {
					b, err := os.ReadFile(filepath.Join(e.dir, v.name))
					if err != nil {
						giveUp("%v", err)
					}
					data = b
				}
				kvs, err := yamlKeys(data)
				if err != nil {
					giveUp("%s: %v", v.name, err)
				}
				c.must(len(kvs) > 0, "keys", inst, v.name, "no keys")
				root := e.needTyp(pConfig, "Config")
				vals := map[string]string{}
				for _, kv := range kvs {
					t := root
					p := strings.Join(kv.path, ".")
					for i, k := range kv.path {
						if t = bindKey(t, k); t == nil {
							c.fail("keys", inst+" "+p, fmt.Sprintf("%s:%d", v.name, kv.line), "the key %s has no field to be decoded into", strings.Join(kv.path[:i+1], "."))
							break
						}
					}
					if t == nil {
						continue
					}
					if kv.leaf && structOf(t) == nil {
						vals[strings.ToLower(p)] = kv.val
						b, ok := t.Underlying().(*types.Basic)
						good := ok
						if ok && b.Info()&types.IsBoolean != 0 {
							good = kv.val == "true" || kv.val == "false"
						}
						if ok && b.Info()&types.IsInteger != 0 {
							good = kv.val != "" && strings.Trim(kv.val, "0123456789") == ""
						}
						c.must(good, "keys", inst+" "+p, fmt.Sprintf("%s:%d", v.name, kv.line), "the value %q of %s does not fit the field's type %s", kv.val, p, t)
					} else {
						c.pass("keys", inst+" "+p, v.name)
					}
				}
				need := []string{"log.loglevel", "log.logdirectory", "log.logfile"}
				if v.side == "server" {
					need = append(need, "server.port.tcpport", "server.port.httpport")
				} else {
					need = append(need, "client.conn.remoteaddr", "client.device.keepalive", "client.devicegeo.locationreportinterval")
				}
				for _, n := range need {
					c.must(vals[n] != "", "keys", inst+" has "+n, v.name, "the default configuration does not set %s", n)
				}
			})
		}
	}
}

// startup: the server program.
func (c *Check) startup() {
	e := c.e
	c.guard("startup", "main", "main.go", func() {
		f := e.needFn("", "main")
		w := c.fnAt(f)
		cT := e.needTyp(pConfig, "Config")
		lT := e.needTyp("pkg/logger", "Config")
		st := e.newState()
		cfg := Sym("cfg", ptrTo(cT))
		e.nonNil(st, cfg)
		for _, p := range []string{"Log", "Server", "Server.Port", "Server.Banner"} {
			e.nonNil(st, st.get(cfg, cT, p))
		}
		flagVal := Sym("flag", types.Typ[types.String])
		bad := ErrSentinel("x", "listen")
		stage := func(st *State, name string, args []*Term, pos token.Pos) {
			st.emit(&Event{Kind: stageKind, Name: name, Args: args, Pos: pos})
		}
		hook := func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
			pos := token.NoPos
			if ci != nil {
				pos = ci.Pos()
			}
			switch nm {
			case "flag.StringVar":
				stage(st, "flag", args, pos)
				st.store(args[0], flagVal, types.Typ[types.String])
				return []callRes{{st: st, val: Nil}}, true
			case "flag.String":
				stage(st, "flag", append([]*Term{Nil}, args...), pos)
				p := Sym("flagptr", ptrTo(types.Typ[types.String]))
				e.nonNil(st, p)
				st.store(p, flagVal, types.Typ[types.String])
				return []callRes{{st: st, val: p}}, true
			case "flag.Parse":
				stage(st, "flag.Parse", args, pos)
				return []callRes{{st: st, val: Nil}}, true
			case modPath + "/" + pConfig + ".Load":
				stage(st, "Load", args, pos)
				return []callRes{{st: st, val: cfg}}, true
			case modPath + "/pkg/logger.Configure":
				stage(st, "Configure", args, pos)
				lg := Sym("logger", ptrTo(e.needTyp("pkg/logger", "Logger")))
				e.nonNil(st, lg)
				e.nonNil(st, st.get(lg, e.needTyp("pkg/logger", "Logger"), "Logger"))
				return []callRes{{st: st, val: lg}}, true
			case "(*" + modPath + "/" + pConfig + ".Config).ParseLogConf":
				stage(st, "ParseLogConf", args, pos)
				lc := Sym("logconf", ptrTo(lT))
				e.nonNil(st, lc)
				return []callRes{{st: st, val: lc}}, true
			case "(*" + modPath + "/" + pServ + ".TCPServer).Listen":
				s := st.clone()
				stage(s, "Listen failed", args, pos)
				stage(st, "Listen", args, pos)
				return []callRes{{st: st, val: Nil}, {st: s, val: bad}}, true
			case "(*" + modPath + "/" + pServ + ".TCPServer).Start":
				stage(st, "Start", args, pos)
				return []callRes{{st: st, val: Nil}}, true
			case modPath + "/" + pAPI + ".Run":
				stage(st, "Run", args, pos)
				return []callRes{{st: st, val: Nil}}, true
			}
			return nil, false
		}
		e.callHook = hook
		outs := c.run(st, f)
		e.callHook = nil
		good, refused := 0, 0
		port := st.get(cfg, cT, "Server.Port.TCPPort")
		for _, o := range outs {
			if o.kind == outPanic {
				continue
			}
			evs := map[string]*Event{}
			note := func(st *State) {
				for _, ev := range stages(st) {
					evs[ev.Name] = ev
				}
			}
			note(o.st)
			fl := evs["flag"]
			if c.must(fl != nil && evs["flag.Parse"] != nil, "startup", "flag", w, "the command line is not read") {
				key, _ := e.pkg(pConfig).Members["DefaultServConfKey"].(*ssa.NamedConst)
				c.must(fl.Args[1] == StrC("c") && key != nil && sameTerm(o.st, fl.Args[2], StrC(constant.StringVal(key.Value.Value))), "startup", "flag", w, "the configuration flag is %s with default %s", fl.Args[1], fl.Args[2])
			}
			if c.must(evs["Load"] != nil, "startup", "load", w, "no configuration is loaded") {
				c.must(sameTerm(o.st, evs["Load"].Args[0], flagVal), "startup", "load", w, "the configuration loaded is %s, not the one given on the command line", evs["Load"].Args[0])
			}
			if c.must(evs["Configure"] != nil && evs["ParseLogConf"] != nil, "startup", "logging", w, "logging is not configured") {
				c.must(evs["Configure"].Args[0] == Sym("logconf", ptrTo(lT)) && evs["ParseLogConf"].Args[0] == cfg, "startup", "logging", w, "logging is configured with something else than the loaded configuration")
				set := false
				for _, ev := range o.st.events {
					if ev.Kind == "store" && strings.Contains(ev.Args[0].String(), "zerolog/log.Logger") {
						set = true
					}
				}
				c.must(set, "startup", "logger set", w, "the configured logger is not the one used")
			}
			if evs["Listen failed"] != nil {
				refused++
				gos := count(o.st, "go", "")
				c.must(o.kind == outExit && o.why != "blocks forever" && gos == 0 && evs["Start"] == nil && evs["Run"] == nil, "startup", "listen failure", w, "the program goes on although it cannot listen (%s)", o.why)
				for _, ev := range o.st.events {
					if ev.Kind == "exit" && len(ev.Args) == 1 {
						k, ok := o.st.constOf(ev.Args[0])
						c.must(ok && k != 0, "startup", "listen failure", c.at(ev.Pos), "the program reports success although it cannot listen")
					}
				}
				continue
			}
			l := evs["Listen"]
			if !c.must(l != nil, "startup", "listen", w, "the program does not listen for terminals (%s)", o.why) {
				continue
			}
			good++
			want := strOf(Concat(seqOfStr(StrC(":")), seqOfStr(port)))
			c.must(sameTerm(o.st, l.Args[1], want), "startup", "address", c.at(l.Pos), "the address listened on is %s, not the configured TCP port", l.Args[1])
			waits := false // for a channel or a group of goroutines
			for _, ev := range o.st.events {
				waits = waits || ev.Kind == "recv" || ev.Kind == "select" || ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait"
			}
			c.must(waits || o.kind == outExit && o.why == "blocks forever" || evs["Start"] != nil || evs["Run"] != nil, "startup", "keeps running", w, "the program ends after starting its services")
			// the services
			starts, runs := 0, 0
			countIn := func(evl []*Event) {
				for _, ev := range evl {
					switch ev.Name {
					case "Start":
						starts++
						c.must(sameTerm(o.st, ev.Args[0], l.Args[0]), "startup", "accepts", c.at(ev.Pos), "the server started is not the one listening")
					case "Run":
						runs++
						c.must(sameTerm(o.st, ev.Args[0], l.Args[0]) && sameTerm(o.st, ev.Args[1], cfg), "startup", "http", c.at(ev.Pos), "the HTTP interface does not get the server and the configuration")
					}
				}
			}
			countIn(stages(o.st))
			base := len(stages(o.st))
			for _, ev := range o.st.events {
				if ev.Kind != "go" {
					continue
				}
				s := o.st.clone()
				s.locks = map[*Term]int{}
				e.callHook = hook
				gs := e.invoke(s, nil, ev.Args[0], ev.Args[1:], nil)
				e.callHook = nil
				if len(gs) > 0 {
					countIn(stages(gs[0].st)[base:])
				}
			}
			c.must(starts == 1, "startup", "accepts", w, "the accept loop is started %d times", starts)
			c.must(runs == 1, "startup", "http", w, "the HTTP interface is started %d times", runs)
		}
		c.must(good > 0 && refused > 0, "startup", "outcomes", w, "%d good, %d refused", good, refused)
	})
	c.guard("listen", "tcp", "internal/server/tcp_server.go", func() {
		f := e.needMethod(pServ, "TCPServer", "Listen")
		w := c.fnAt(f)
		st := e.newState()
		serv := Sym("serv", f.Params[0].Type())
		e.nonNil(st, serv)
		addr := Sym("addr", types.Typ[types.String])
		ok, bad := 0, 0
		for _, o := range c.run(st, f, serv, addr) {
			var ls []*Event
			for _, ev := range o.st.events {
				if ev.Kind == "call" && strings.Contains(ev.Name, "net.") && (strings.HasSuffix(ev.Name, ".Listen") || strings.HasSuffix(ev.Name, ".ListenTCP")) {
					ls = append(ls, ev)
				}
			}
			if !c.must(o.kind == outRet && len(ls) == 1, "listen", "once", w, "listening is tried %d times", len(ls)) {
				continue
			}
			named, tcp := false, false
			for _, a := range ls[0].Args {
				named = named || a == addr
				tcp = tcp || a.K == KStr && strings.HasPrefix(a.S, "tcp")
			}
			c.must(named && tcp, "listen", "address", w, "the server listens on %v", ls[0].Args)
			_, er := c.resultsOf(ls[0])
			switch o.st.decide(mkEqNil(er)) {
			case 1:
				ok++
				c.must(isNil(o.vals[0]) || o.st.isNilNow(o.vals[0]), "listen", "success", w, "success is reported as %s", o.vals[0])
			case -1:
				bad++
				c.must(!isNil(o.vals[0]) && o.st.decide(mkEqNil(o.vals[0])) == -1, "listen", "failure", w, "a failure to listen is reported as %s", o.vals[0])
			default:
				// returned as it is
				ok++
				bad++
				c.must(sameTerm(o.st, o.vals[0], er), "listen", "result", w, "the result %s is not that of listening", o.vals[0])
			}
		}
		c.must(ok > 0 && bad > 0, "listen", "outcomes", w, "%d good, %d bad", ok, bad)
	})
	c.guard("http", "address", "internal/api/api.go", func() {
		f := e.needFn(pAPI, "Run")
		cT := e.needTyp(pConfig, "Config")
		st := e.newState()
		serv, cfg := Sym("serv", f.Params[0].Type()), Sym("cfg", f.Params[1].Type())
		e.nonNil(st, serv)
		e.nonNil(st, cfg)
		for _, p := range []string{"Server", "Server.Port"} {
			e.nonNil(st, st.get(cfg, cT, p))
		}
		want := strOf(Concat(seqOfStr(StrC(":")), seqOfStr(st.get(cfg, cT, "Server.Port.HTTPPort"))))
		ok, bad := 0, 0
		w := c.fnAt(f)
		// the address argument is read when the call is made
		addrs := map[*Term]bool{}
		e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
			if strings.HasSuffix(nm, "gin.Engine).Run") && len(args) == 2 {
				for _, s := range st.seqOfSlice(args[1]).A {
					if s.K == KSElem {
						addrs[s.A[0]] = true
					}
				}
			}
			if strings.HasSuffix(nm, "http.Server).ListenAndServe") {
				addrs[st.get(args[0], ci.Common().Args[0].Type(), "Addr")] = true
			}
			return nil, false
		}
		outs := c.run(st, f, serv, cfg)
		e.callHook = nil
		for _, o := range outs {
			var rs []*Event
			for _, ev := range o.st.events {
				if ev.Kind == "call" && (strings.HasSuffix(ev.Name, "gin.Engine).Run") || strings.HasSuffix(ev.Name, "http.ListenAndServe") || strings.HasSuffix(ev.Name, "http.Server).ListenAndServe")) {
					rs = append(rs, ev)
				}
			}
			if !c.must(len(rs) == 1, "http", "served", w, "the HTTP interface is served %d times", len(rs)) {
				continue
			}
			found := false
			for _, a := range rs[0].Args {
				if sameTerm(o.st, a, want) {
					found = true
				}
			}
			if strings.HasSuffix(rs[0].Name, "gin.Engine).Run") || strings.HasSuffix(rs[0].Name, "http.Server).ListenAndServe") {
				found = len(addrs) == 1 && addrs[want]
			}
			c.must(found, "http", "address", c.at(rs[0].Pos), "the HTTP interface is not served on the configured port: %v", rs[0].Args)
			switch o.st.decide(mkEqNil(rs[0].Res)) {
			case 1:
				ok++
			case -1:
				bad++
				c.must(o.kind == outExit || o.kind == outPanic, "http", "failure", w, "the program goes on without its HTTP interface")
				for _, ev := range o.st.events {
					if ev.Kind == "exit" && len(ev.Args) == 1 {
						k, kok := o.st.constOf(ev.Args[0])
						c.must(kok && k != 0, "http", "failure", c.at(ev.Pos), "the program reports success although it cannot serve HTTP")
					}
				}
			default:
				c.fail("http", "failure", w, "a failure to serve HTTP is not noticed")
			}
		}
		c.must(bad > 0, "http", "outcomes", w, "%d good, %d bad", ok, bad)
	})
}
