package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// rules maps each property to the rules that decide it.
var rules = map[string]func(*Run){
	"C01": ruleC01, "C02": ruleC02, "C04": ruleC04, "C05": ruleC05,
	"C06": ruleC06, "C07": ruleC07, "C08": ruleC08, "C09": ruleC09,
	"C03": ruleC03, "C10": ruleC10, "C11": ruleC11, "C12": ruleC12, "C13": ruleC13, "C22": ruleC22,
	"C14": ruleC14, "C15": ruleC15, "C16": ruleC16, "C17": ruleC17,
	"C25": ruleC25, "C26": ruleC26,
	"C23": ruleC23, "C24": ruleC24,
	"C18": ruleC18, "C19": ruleC19, "C20": ruleC20, "C21": ruleC21, "C27": ruleC27, "C28": ruleC28, "C29": ruleC29, "C30": ruleC30, "C31": ruleC31,
	"C32": ruleC32, "C33": ruleC33, "C34": ruleC34, "C35": ruleC35,
}

// check decides the properties, and returns the exit status.
func check(args []string) int {
	var ids []string
	tier := os.Getenv("VERIF_TIER")
	for _, a := range args {
		switch {
		case strings.HasPrefix(a, "--tier="):
			tier = a[7:]
		case a == "all":
			for id := range rules {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		default:
			ids = append(ids, a)
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	t0 := time.Now()
	w, err := load(repoDir())
	status := 0
	for _, id := range ids {
		t1 := time.Now()
		f := rules[id]
		if f == nil {
			fmt.Printf("no rules for %s\n", id)
			status = 1
			continue
		}
		r := newRun(w, id)
		r.tier = tier
		if err != nil {
			r.ob("source loads", false, nil, 0, "the program does not type-check: %v", err)
		} else {
			r.guard(f)
		}
		if len(ids) == 1 {
			t1 = t0
		}
		if !r.report(time.Since(t1).Seconds()) {
			status = 1
		}
	}
	return status
}

// guard turns a failure of the checker into a violated obligation: what it
// could not decide, it does not report as holding.
func (r *Run) guard(f func(*Run)) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(x)
			}
			r.ob("analysed", false, nil, 0, "the analysis failed: %v", x)
		}
	}()
	f(r)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// known reads the entries of the known-findings file for the property:
// "known: property=<id> rule=<rule> function=<function> <what fails>".
func known(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" ")
		if !ok {
			continue
		}
		// rule="..." function="..." message="..."
		if i := strings.Index(rest, " :: "); i > 0 {
			out[rest[:i]] = rest[i+4:]
		}
	}
	return out
}

func (r *Run) report(wall float64) bool {
	kf := known(r.prop)
	var viol []Violation
	for _, v := range r.viol {
		id := v.rule + " @ " + v.construct
		if what, ok := kf[id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, what)
			continue
		}
		viol = append(viol, v)
	}
	obl, dis := 0, 0
	per := map[string]string{}
	for k, n := range r.oblN {
		obl += n
		dis += r.oblOK[k]
		per[k] = fmt.Sprintf("%d of %d", r.oblOK[k], n)
	}
	var ans []map[string]interface{}
	var names []string
	for n := range r.used {
		names = append(names, n)
	}
	sort.Strings(names)
	fns := map[string]bool{}
	paths, events := 0, 0
	for _, n := range names {
		a := r.used[n]
		m := map[string]interface{}{"entry": n, "paths": len(a.exits), "steps": a.steps, "loops_summarised": a.loops(), "safety_obligations": a.obligs()}
		ev := 0
		for _, x := range a.exits {
			ev += len(x.st.events())
		}
		m["events_on_paths"] = ev
		paths += len(a.exits)
		events += ev
		if a.e != nil {
			for f := range a.e.seenFns {
				if r.w != nil && a.e.inRepo(pkgOf(f)) {
					fns[shortFn(f)] = true
				}
			}
		}
		ans = append(ans, m)
	}
	var fl, sites, notes []string
	for f := range fns {
		fl = append(fl, f)
	}
	for s := range r.sites {
		sites = append(sites, s)
	}
	sort.Strings(fl)
	sort.Strings(sites)
	notes = append(notes, r.notes...)
	cov := map[string]interface{}{
		"explanation":         explain[r.prop],
		"obligations":         obl,
		"discharged":          dis,
		"obligations_by_rule": per,
		"entries":             ans,
		"functions_analysed":  fl,
		"paths":               paths,
		"events_on_paths":     events,
		"call_sites":          sites,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seed(), "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(viol),
		"assumptions": assumptions(r.prop),
	}
	path := filepath.Join(verifDir(), "evidence", r.prop+".json")
	os.MkdirAll(filepath.Dir(path), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Printf("cannot write the evidence: %v\n", err)
	}
	fmt.Printf("%s: %d of %d obligations hold; %d functions, %d paths in %d entries (%.1fs)\n", r.prop, dis, obl, len(fl), paths, len(ans), wall)
	if len(viol) == 0 {
		return true
	}
	rp := filepath.Join(verifDir(), "evidence", r.prop+".violations.txt")
	var sb strings.Builder
	for _, v := range viol {
		l := fmt.Sprintf("%s: rule %q in %s: %s\n", v.place, v.rule, v.construct, v.msg)
		sb.WriteString(l)
		fmt.Print(l)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return false
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func (a *Analysis) obligs() int {
	n := 0
	for _, x := range a.log {
		if x.kind == "oblig" {
			n++
		}
	}
	return n
}

func (a *Analysis) loops() int {
	n := map[string]bool{}
	for _, x := range a.log {
		if x.kind == "loop" {
			n[x.fn.String()+x.loop.header.String()] = true
		}
	}
	return len(n)
}

func assumptions(prop string) []string {
	return []string{
		"models of the standard library and golang.org/x/crypto functions that the program calls (checker/models.go)",
		"Ed25519, SHA-512, bcrypt-PBKDF and nacl/box are uninterpreted functions with their documented interfaces",
	}
}
