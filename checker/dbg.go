package main

import (
	"fmt"
	"os"
)

var debugFix = os.Getenv("VERIF_DEBUG_FIX") != ""

// dumpLoop prints what one iteration of a loop does.
func (a *Analysis) dumpLoop(l *LoopLeaf) {
	w := a.e.w
	fmt.Printf("== loop %s %s\n", shortFn(l.fn), l.header)
	for i, p := range l.phis {
		fmt.Printf("   phi %s: entry %s head %s back %s\n", p.Name(), short(l.ephi[i]), short(l.hphi[i]), short(l.bphi[i]))
	}
	l.back.each(func(id int, o *Obj) {
		h := l.head.obj(id)
		if h == nil || h == o {
			return
		}
		if h.v.key() != o.v.key() {
			en := "-"
			if x := l.entry.obj(id); x != nil {
				en = short(x.v)
			}
			fmt.Printf("   obj %d %s: entry %s\n       head %s\n       back %s\n", id, o.site, en, short(h.v), short(o.v))
		}
	})
	for _, ev := range iteration(l) {
		s := ev.Name
		for _, x := range ev.Args {
			s += " " + short(x)
		}
		fmt.Printf("     %s %s\n", w.place(ev.Pos), s)
	}
	for f := l.back.facts; f != nil && f != l.head.facts; f = f.prev {
		fmt.Printf("       fact %v %s\n", f.true, short(f.p))
	}
	for f := l.back.ineqs; f != nil && f != l.head.ineqs; f = f.prev {
		fmt.Printf("       ineq %s >= 0\n", short(f.l))
	}
	for f := l.back.defs; f != nil && f != l.head.defs; f = f.prev {
		fmt.Printf("       def %s = %s\n", short(f.t), short(f.l))
	}
	for f := l.head.facts; f != nil && f != l.entry.facts; f = f.prev {
		fmt.Printf("       head fact %v %s\n", f.true, short(f.p))
	}
	for f := l.head.ineqs; f != nil && f != l.entry.ineqs; f = f.prev {
		fmt.Printf("       head ineq %s >= 0\n", short(f.l))
	}
}

// iteration lists the events between the head and the back edge.
func iteration(l *LoopLeaf) []*Event {
	var out []*Event
	for t := l.back.trace; t != nil && t != l.head.trace; t = t.prev {
		out = append(out, t.e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
