package main

import (
	"fmt"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: operations come to an end. Each loop has a lexicographic ranking: its
// back edges are removed one group after the other, each because a number that
// the other edges leave alone (or move the same way) approaches a bound that
// the loop does not change, or because it takes something from an input.

// moved is a number at the head of a loop and after an iteration.
type moved struct{ h, b *Lin }

// movedIn lists the numbers inside a value before and after an iteration.
func movedIn(path string, h, b Value, out map[string]moved) {
	if h == nil || b == nil {
		return
	}
	if rh, rb := ropeOf(h), ropeOf(b); rh != nil && rb != nil {
		out[path+"#"] = moved{rh.len(), rb.len()}
		return
	}
	bit := func(v Value) *Lin {
		switch x := v.(type) {
		case *Bool:
			if x.known >= 0 {
				return con(int64(x.known))
			}
		case Nil:
			return con(0)
		case *Opq:
			if x.nonnil {
				return con(1)
			}
		case *Iface, *Ptr:
			return con(1)
		}
		return nil
	}
	switch x := h.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			out[path] = moved{x, y}
		}
		return
	case *Slice:
		if y, ok := b.(*Slice); ok {
			out[path+"/n"] = moved{x.n, y.n}
			out[path+"/c"] = moved{x.c, y.c}
			if x.arr != nil && y.arr != nil && x.arr.obj == y.arr.obj {
				out[path+"/off"] = moved{x.off, y.off}
			}
		}
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.fs) == len(y.fs) {
			for i := range x.fs {
				movedIn(path+"."+strconv.Itoa(i), x.fs[i], y.fs[i], out)
			}
		}
	case *Arr:
		if y, ok := b.(*Arr); ok && len(x.es) == len(y.es) && len(x.es) <= 32 {
			for i := range x.es {
				movedIn(path+"."+strconv.Itoa(i), x.es[i], y.es[i], out)
			}
		}
	case *Tup:
		if y, ok := b.(*Tup); ok && len(x.vs) == len(y.vs) {
			for i := range x.vs {
				movedIn(path+"."+strconv.Itoa(i), x.vs[i], y.vs[i], out)
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			movedIn(path+"!", x.v, y.v, out)
		}
	case *Mod:
		if y, ok := b.(*Mod); ok && x.kind == y.kind {
			for k := range x.f {
				movedIn(path+"."+k, x.f[k], y.f[k], out)
			}
		}
	}
	if p, q := bit(h), bit(b); p != nil && q != nil {
		out[path+"?"] = moved{p, q}
	}
}

// numbers lists what an iteration may approach a bound with.
func (l *LoopLeaf) numbers() map[string]moved {
	out := map[string]moved{}
	for i := range l.hphi {
		movedIn("p"+strconv.Itoa(i), l.hphi[i], l.bphi[i], out)
	}
	l.head.each(func(id int, o *Obj) {
		if p := l.back.obj(id); p != nil && l.entry.obj(id) != nil {
			movedIn("o"+strconv.Itoa(id), o.v, p.v, out)
		}
	})
	return out
}

// fixed: no iteration of the loop changes the value.
func (l *LoopLeaf) fixed(v Value) bool {
	ok := true
	walk(v, map[string]bool{}, func(v Value) bool {
		t, is := v.(*Term)
		if !is {
			return true
		}
		if t.id <= l.base {
			return false
		}
		if !t.isMk() {
			ok = false
		}
		return ok
	})
	return ok
}

// bounded: v cannot grow for ever, as far as this iteration goes.
func (l *LoopLeaf) bounded(v *Lin) bool {
	st := l.back
	v = st.simp(v)
	if _, hi := v.iv(); hi < maxI {
		return true
	}
	if l.fixed(v) {
		return true
	}
	if st.ineqs == nil {
		return false
	}
	// f >= 0 where f = bound - v
	for _, f := range st.ineqs.strongest() {
		for _, k := range []int64{1, 2, 3, 4, 8} {
			if l.fixed(f.add(v.scale(k))) {
				return true
			}
		}
	}
	for _, f := range st.ineqs.strongest() {
		d := f.add(v)
		if len(d.ts) >= len(f.ts) {
			continue
		}
		for _, g := range st.ineqs.strongest() {
			if l.fixed(d.add(g)) {
				return true
			}
		}
	}
	return false
}

// takes: the iteration has taken something from an input that was open before
// the loop and is not set back in it.
func (l *LoopLeaf) takes() bool {
	got := false
	for _, e := range iteration(l) {
		switch e.Name {
		case "seek":
			return false
		}
		if e.Loop {
			continue
		}
		switch e.Name {
		case "read", "readfull":
			id := argTerm(e, 0)
			if id == nil || !l.fixed(id) || len(e.Args) < 3 {
				continue
			}
			n, _ := e.Args[1].(*Lin)
			size, _ := e.Args[2].(*Lin)
			if n != nil && l.back.prove(n.addc(-1)) || !e.Fail && size != nil && l.back.prove(size.addc(-1)) {
				got = true
			}
		case "readline":
			if id := argTerm(e, 0); id != nil && l.fixed(id) && !e.Fail {
				got = true
			}
		case "scanline", "readpassword", "rand":
			got = got || !e.Fail
		}
	}
	return got
}

// ranked reports the back edges of a loop for which no ranking was found.
func ranked(ls []*LoopLeaf) []*LoopLeaf {
	var left []*LoopLeaf
	for _, l := range ls {
		if _, isRange := l.header.Instrs[len(l.phis)].(*ssa.Next); isRange {
			continue // range over a string or a map
		}
		if !l.takes() {
			left = append(left, l)
		}
	}
	if len(left) == 0 {
		return nil
	}
	nums := map[*LoopLeaf]map[string]moved{}
	var names []string
	for i, l := range left {
		nums[l] = l.numbers()
		if i == 0 {
			for k, m := range nums[l] {
				if !m.h.equal(m.b) {
					names = append(names, k)
				}
			}
			continue
		}
		for k, m := range nums[l] {
			if !m.h.equal(m.b) {
				names = append(names, k)
			}
		}
	}
	sort.Strings(names)
	u := names[:0]
	for i, k := range names {
		if i == 0 || k != names[i-1] {
			u = append(u, k)
		}
	}
	names = u
	for _, k := range append([]string(nil), names...) {
		for _, j := range names {
			if k != j && len(names) <= 12 {
				names = append(names, k+" - "+j)
			}
		}
	}
	get := func(l *LoopLeaf, k string) (moved, bool) {
		if i := strings.Index(k, " - "); i >= 0 {
			p, ok := nums[l][k[:i]]
			q, ok2 := nums[l][k[i+3:]]
			if !ok || !ok2 {
				return moved{}, false
			}
			return moved{p.h.sub(q.h), p.b.sub(q.b)}, true
		}
		m, ok := nums[l][k]
		return m, ok
	}
	for len(left) > 0 {
		progress := false
		for _, k := range names {
			for _, sign := range []int64{1, -1} {
				var keep []*LoopLeaf
				all := true
				for _, l := range left {
					m, ok := get(l, k)
					if !ok {
						all = false
						break
					}
					d := m.b.sub(m.h).scale(sign)
					if l.back.prove(d.addc(-1)) && (l.bounded(m.h.scale(sign)) || l.bounded(m.b.scale(sign))) {
						continue
					}
					if !l.back.prove(d) {
						all = false
						break
					}
					keep = append(keep, l)
				}
				if all && len(keep) < len(left) {
					left, progress = keep, true
					break
				}
			}
			if progress {
				break
			}
		}
		if !progress {
			return left
		}
	}
	return nil
}

// lockOf names the lock that an event takes or gives back.
func lockOf(e *Event) (key string, take, give bool) {
	if len(e.Args) == 0 || e.Args[0] == nil {
		return
	}
	switch e.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "w" + e.Args[0].key(), true, false
	case "(*sync.RWMutex).RLock":
		return "r" + e.Args[0].key(), true, false
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "w" + e.Args[0].key(), false, true
	case "(*sync.RWMutex).RUnlock":
		return "r" + e.Args[0].key(), false, true
	}
	return
}

func ruleC28(r *Run) {
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.cryOps()...)
	as = append(as, r.mainFn())
	as = append(as, r.promptFns()...)
	as = append(as, r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	for _, ctor := range []string{"base64.NewEncoder", "base64.NewDecoder"} {
		c := r.client(ctor, "")
		if c.err != "" {
			continue
		}
		as = append(as, c.ctor)
		for _, cc := range c.calls {
			as = append(as, cc.a)
		}
	}
	// a reader that returns neither data nor an error makes its caller ask for
	// ever
	reads := 0
	if c := r.client("base64.NewDecoder", ""); c.err == "" {
		for _, cc := range c.calls {
			dst, _ := cc.a.args[len(cc.a.args)-1].(*Slice)
			if cc.meth != "Read" || dst == nil {
				continue
			}
			for _, x := range cc.a.exits {
				cnt, isN := resultOf(x, 0).(*Lin)
				if _, isNil := errOf(cc.a, x).(Nil); !isNil || !isN || x.kind != xRet {
					continue
				}
				reads++
				failed := false
				for _, e := range x.st.events() {
					failed = failed || e.Fail && !e.Loop
				}
				ok := x.st.decide(eqPred(dst.n, con(0))) == 1
				if failed {
					ok = ok || x.st.prove(cnt.addc(-1))
				} else {
					ok = ok || x.st.decide(eqPred(cnt, con(0))) != 1
				}
				r.ob("reads go on", ok, cc.a.fn, x.pos, "Read may return neither data nor an error (exit at %s), so that copying the stream never ends", r.leaf(x))
			}
		}
		r.floor("reads without an error", reads, 1)
	}
	edges, exits := 0, 0
	heads := map[*ssa.BasicBlock]bool{}
	for _, a := range as {
		if a.err != "" {
			continue
		}
		type group struct {
			header *ssa.BasicBlock
			entry  *State
		}
		by := map[group][]*LoopLeaf{}
		var order []group
		for _, rec := range a.log {
			if rec.kind != "loop" {
				continue
			}
			g := group{rec.loop.header, rec.loop.entry}
			if by[g] == nil {
				order = append(order, g)
			}
			by[g] = append(by[g], rec.loop)
		}
		for _, g := range order {
			ls := by[g]
			heads[g.header] = true
			bad := map[*LoopLeaf]bool{}
			for _, l := range ranked(ls) {
				bad[l] = true
			}
			for _, l := range ls {
				edges++
				r.ob("progress", !bad[l], l.fn, loopPos(l), "%s may never end: an iteration of this loop neither takes anything from an input nor approaches a bound%s", a.name, lastEvent(l))
			}
		}
		for _, x := range a.exits {
			exits++
			held := map[string]*Event{}
			for _, e := range x.st.events() {
				k, take, give := lockOf(e)
				switch {
				case take:
					if k[0] == 'w' {
						r.ob("locks", held[k] == nil, e.Fn, e.Pos, "%s takes a lock that it already holds", a.name)
					}
					held[k] = e
				case give:
					delete(held, k)
				}
			}
			if x.kind == xHalt {
				continue
			}
			var ks []string
			for k := range held {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				r.ob("locks", false, held[k].Fn, held[k].Pos, "%s returns (exit at %s) without giving back this lock: the next operation waits for ever", a.name, r.leaf(x))
			}
		}
	}
	r.floor("iterations", edges, 20)
	r.floor("loops", len(heads), 5)
	r.floor("exits", exits, 300)
	// what waits for another goroutine is not followed
	n := 0
	for _, f := range r.w.allFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				n++
				what := ""
				switch x := i.(type) {
				case *ssa.Select:
					if x.Blocking {
						what = "a select"
					}
				case *ssa.Send:
					what = "sending on a channel"
				case *ssa.UnOp:
					if x.Op.String() == "<-" {
						what = "receiving from a channel"
					}
				}
				if c, is := i.(ssa.CallInstruction); is && c.Common().StaticCallee() != nil {
					switch g := c.Common().StaticCallee().String(); g {
					case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
						what = g
					}
				}
				if what != "" {
					r.ob("no waiting", false, f, i.Pos(), "%s may wait for ever: nothing is known of other goroutines", what)
				}
			}
		}
	}
	r.floor("instructions scanned for waiting", n, 1000)
}

func lastEvent(l *LoopLeaf) string {
	ev := iteration(l)
	if len(ev) == 0 {
		return ""
	}
	e := ev[len(ev)-1]
	s := e.Name
	if e.Fail {
		s += " (failed)"
	}
	return fmt.Sprintf("; the last event in it is %s", s)
}

func loopPos(l *LoopLeaf) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{l.header}, l.header.Succs...) {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Phi); !ok && i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return l.fn.Pos()
}

// C30: no operation leaves a file open.
func ruleC30(r *Run) {
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.cryOps()...)
	as = append(as, r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	opens, exits := 0, 0
	for _, a := range as {
		if a.err != "" {
			continue
		}
		for _, x := range a.exits {
			exits++
			closed := map[*Term]bool{}
			for _, e := range x.st.events() {
				if e.Name == "close" {
					if id := argTerm(e, 0); id != nil {
						closed[id] = true
					}
				}
			}
			for _, e := range x.st.events() {
				if e.Name != "open" || e.Fail {
					continue
				}
				opens++
				r.site(e)
				id, ok := e.Out.(*Term)
				r.ob("closed", ok && closed[id], e.Fn, e.Pos, "%s returns (exit at %s) without closing the file opened here", a.name, r.leaf(x))
			}
		}
	}
	r.floor("files opened", opens, 50)
	r.floor("exits", exits, 200)
	n := 0
	for _, f := range r.w.allFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				n++
				if _, ok := i.(*ssa.Go); ok {
					r.ob("no goroutine", false, f, i.Pos(), "a goroutine is started that may outlive the operation")
				}
			}
		}
	}
	r.floor("instructions scanned", n, 1000)
}

// C31: the public key file is touched only once the secret key is stored.
func ruleC31(r *Run) {
	a := r.genkey()
	secP, pubP := cat(strArg(a, 0), rlit(".sec")), cat(strArg(a, 0), rlit(".pub"))
	touched, stored := 0, 0
	for _, x := range a.exits {
		st := x.st
		isAt := func(v Value, p *Rope) bool {
			s, ok := v.(*Str)
			return ok && sameRope(st, s.r, p)
		}
		done := false // the secret key file is complete
		secs := map[*Term]bool{}
		wrote := map[*Term]bool{}
		cut := map[*Term]bool{} // a write failed
		for _, e := range st.events() {
			if len(e.Args) == 0 {
				continue
			}
			id := argTerm(e, 0)
			switch e.Name {
			case "writefile":
				switch {
				case isAt(e.Args[0], secP):
					done = !e.Fail
				case isAt(e.Args[0], pubP):
					touched++
					r.ob("secret key first", done, e.Fn, e.Pos, "the public key is written (exit at %s) before the secret key has been stored: a failure leaves a public key without its secret key", r.leaf(x))
				}
			case "open":
				fl, ok := e.Args[1].(*Lin)
				if ok && fl.isConst() && fl.c&3 == 0 && fl.c&(oCREATE|oTRUNC) == 0 {
					continue
				}
				t, _ := e.Out.(*Term)
				switch {
				case isAt(e.Args[0], secP):
					done = false
					if t != nil {
						secs[t] = true
					}
				case isAt(e.Args[0], pubP):
					touched++
					r.ob("secret key first", done, e.Fn, e.Pos, "the public key file is opened (exit at %s) before the secret key has been stored: a failure leaves a public key without its secret key", r.leaf(x))
				}
			case "write":
				if id != nil && secs[id] {
					wrote[id] = !e.Fail && !cut[id]
					cut[id] = cut[id] || e.Fail
					done = false
				}
			case "close":
				if id != nil && secs[id] && !done {
					done = !e.Fail && wrote[id]
				}
			case "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Link", "os.Symlink", "syscall.Unlink", "syscall.Rename", "syscall.Truncate":
				for _, v := range e.Args {
					if isAt(v, pubP) {
						touched++
						r.ob("secret key first", done, e.Fn, e.Pos, "the public key file is removed or replaced (exit at %s) before the secret key has been stored: a failure leaves a secret key without its public key", r.leaf(x))
					}
					if isAt(v, secP) {
						done = false
					}
				}
			}
		}
		if done {
			stored++
		}
	}
	r.floor("paths that write the public key", touched, 2)
	r.floor("paths that store the secret key", stored, 2)
}
