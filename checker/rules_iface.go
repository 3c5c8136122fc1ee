package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C32: a result or an error

func ruleC32(r *Run) {
	as := append(r.sigOps(), r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	as = append(as, r.promptFns()...)
	bad, good := 0, 0
	for _, a := range as {
		if a.err != "" || !a.hasErr() || a.fn.Signature.Results().Len() < 2 {
			continue
		}
		for _, x := range a.exits {
			if x.kind != xRet {
				continue
			}
			for i := 0; i < a.fn.Signature.Results().Len()-1; i++ {
				v := resultOf(x, i)
				if failure(a, x) {
					bad++
					r.ob("no result with an error", isNilValue(x.st, v), a.fn, x.pos, "%s returns a result together with an error (exit at %s): %s", a.name, r.leaf(x), short(v))
				}
				if success(a, x) {
					good++
					switch p := v.(type) {
					case *Ptr:
						r.ob("result of its own", a.entry.obj(p.obj) == nil, a.fn, x.pos, "%s returns memory that is not the caller's own (exit at %s): %s", a.name, r.leaf(x), short(v))
					case *Slice: // an entered passphrase may be empty
						r.ob("result of its own", p.arr == nil || a.entry.obj(p.arr.obj) == nil, a.fn, x.pos, "%s returns memory that is not the caller's own (exit at %s): %s", a.name, r.leaf(x), short(v))
					default:
						r.ob("result without an error", v != nil && !isNilValue(x.st, v), a.fn, x.pos, "%s returns neither a result nor an error (exit at %s): %s", a.name, r.leaf(x), short(v))
					}
				}
			}
		}
	}
	r.floor("failing exits", bad, 20)
	r.floor("succeeding exits", good, 8)
}

func isNilValue(st *State, v Value) bool {
	switch x := v.(type) {
	case Nil:
		return true
	case *Slice:
		return x.arr == nil || st.decide(eqPred(x.n, con(0))) == 1
	}
	return false
}

// ---- C33: only the documented inputs

// ambient functions make a result depend on something that is not an input.
var ambient = map[string]bool{}

func init() {
	for _, n := range []string{"os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Hostname", "os.Getwd", "os.Getpid", "os.Getppid",
		"os.Getuid", "os.Geteuid", "os.Getgid", "os.Getegid", "os.Getgroups", "os.Executable", "os.TempDir", "os.UserConfigDir", "os.UserCacheDir",
		"time.Now", "time.Since", "time.Until", "time.After", "time.NewTimer", "time.AfterFunc", "time.Tick", "time.NewTicker",
		"runtime.NumCPU", "runtime.NumGoroutine", "runtime.ReadMemStats", "runtime.GOMAXPROCS"} {
		ambient[n] = true
	}
}

// steady functions of the packages that are otherwise taken for ambient.
var steady = map[string]bool{"runtime.KeepAlive": true, "runtime.GC": true, "runtime/debug.FreeOSMemory": true, "time.Sleep": true,
	"runtime.Gosched": true, "runtime.SetFinalizer": true, "time.Unix": true, "time.Date": true, "time.Parse": true, "time.ParseDuration": true}

// pathReaders take the path of a file that they look at.
var pathReaders = map[string]bool{"os.Readlink": true, "os.ReadDir": true, "io/ioutil.ReadDir": true,
	"path/filepath.Glob": true, "path/filepath.EvalSymlinks": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "os.DirFS": true}

func ruleC33(r *Run) {
	// which files each operation may read
	inputs := func(a *Analysis, st *State, p *Rope) bool {
		arg := func(i int) bool { return sameRope(st, p, strArg(a, i)) }
		switch a.name {
		case "signify.Verify":
			return arg(0) || arg(1) || pathIs(st, p, strArg(a, 2), cat(strArg(a, 1), rlit(".sig")))
		case "signify.Sign", "crypto.Seal", "crypto.Open":
			return arg(0) || arg(1)
		case "signify.GenerateKey":
			return false
		}
		for i := range a.args {
			if _, is := a.args[i].(*Str); is && arg(i) {
				return true
			}
		}
		return false
	}
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.cryOps()...)
	as = append(as, r.mainFn())
	as = append(as, r.promptFns()...)
	reads, events := 0, 0
	for _, a := range as {
		if a.err != "" {
			continue
		}
		for _, x := range a.exits {
			for _, e := range x.st.events() {
				events++
				ev := e.Name
				switch {
				case ev == "open":
					fl, ok := e.Args[1].(*Lin)
					if ok && fl.isConst() && fl.c&3 == oWRONLY {
						continue
					}
					if ok && fl.isConst() && fl.c&3 == oRDWR && (fl.c&oTRUNC != 0 || fl.c&oEXCL != 0) {
						continue // starts empty
					}
					fallthrough
				case ev == "readfile" || ev == "loadpub" || ev == "loadpriv" || pathReaders[ev]:
					reads++
					r.site(e)
					p := ropeOf(e.Args[0])
					r.ob("documented input", p != nil && inputs(a, x.st, p), e.Fn, e.Pos, "%s reads %s, which is not one of its inputs (exit at %s)", a.name, short(e.Args[0]), r.leaf(x))
				case ev == "stat":
					s, is := e.Args[0].(*Str)
					if !is {
						continue // an opened file
					}
					reads++
					r.site(e)
					out, _ := mayWrite(a, x.st, s.r)
					r.ob("documented input", out || inputs(a, x.st, s.r), e.Fn, e.Pos, "%s looks at %s, which is not one of its files (exit at %s)", a.name, short(s), r.leaf(x))
				case ev == "globalstore" && a.name != "main.main":
					r.ob("no hidden state", false, e.Fn, e.Pos, "%s modifies %s, which later operations see", a.name, short(e.Args[0]))
				case ev == "prompt" || ev == "readpassword":
					ask := true
					switch a.name {
					case "signify.Verify", "signify.LoadPublicKey", "signify.LoadPrivateKey", "signify.GenerateKey", "signify.GenerateKeypair", "(*signify.Public).ToBox", "crypto.Seal":
						ask = false
					}
					r.ob("no passphrase needed", ask, e.Fn, e.Pos, "%s asks for a passphrase, which it does not need", a.name)
				}
			}
		}
	}
	r.floor("files read", reads, 40)
	r.floor("events", events, 1000)
	// nothing ambient, anywhere in the repository
	calls := 0
	for _, f := range r.w.allFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, is := i.(ssa.CallInstruction); is {
					calls++
					g := c.Common().StaticCallee()
					if g == nil {
						continue
					}
					n := g.String()
					amb := ambient[n]
					if p := pkgOf(g); p != nil && !inMain(f) && f.Name() != "init" {
						switch p.Path() {
						case "flag", "os/user", "syscall", "runtime", "runtime/debug", "time", "net", "os/signal":
							amb = amb || g.Name() != "init" && g.Signature.Recv() == nil && !steady[n]
						}
					}
					if strings.HasPrefix(n, "os.") && (n == "os.Getenv" || n == "os.LookupEnv") && len(c.Common().Args) == 1 {
						if k, is := c.Common().Args[0].(*ssa.Const); is && k.Value != nil && k.Value.ExactString() == `"HOME"` && inMain(f) {
							amb = false // where the default key is
						}
					}
					r.ob("nothing ambient", !amb, f, i.Pos(), "%s makes the result depend on something that is not an input", n)
				}
				// standard input is the prompt's: only its descriptor is used
				u, is := i.(*ssa.UnOp)
				if !is {
					continue
				}
				if g, is := u.X.(*ssa.Global); is && g.String() == "os.Args" && !inMain(f) {
					r.ob("nothing ambient", false, f, i.Pos(), "the command line is read by the library")
				}
				if g, is := u.X.(*ssa.Global); is && g.String() == "os.Stdin" && u.Referrers() != nil {
					for _, ref := range *u.Referrers() {
						c, is := ref.(ssa.CallInstruction)
						fd := is && c.Common().StaticCallee() != nil && c.Common().StaticCallee().String() == "(*os.File).Fd"
						if _, dbg := ref.(*ssa.DebugRef); dbg {
							continue
						}
						r.ob("nothing ambient", fd, f, ref.Pos(), "standard input is read by other means than the prompt")
					}
				}
			}
		}
	}
	r.floor("call sites", calls, 200)
}

func inMain(f *ssa.Function) bool {
	p := pkgOf(f)
	return p != nil && p.Name() == "main"
}
