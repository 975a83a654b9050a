package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type finding struct {
	prop string
	re   *regexp.Regexp
	desc string
}

func loadFindings(file, prop string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []finding
	re := regexp.MustCompile(`^finding: property=(\S+) match="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			out = append(out, finding{m[1], regexp.MustCompile(m[2]), m[3]})
		}
	}
	return out
}

func fail(f string, a ...interface{}) {
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		fail("usage: engine <property> quick|thorough [harness]")
	}
	prop, tier := os.Args[1], os.Args[2]
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	t0 := time.Now()
	var props map[string]*Prop
	b, err := os.ReadFile(filepath.Join(root, "harness", "props.json"))
	if err != nil {
		fail("%v", err)
	}
	if err := json.Unmarshal(b, &props); err != nil {
		fail("props.json: %v", err)
	}
	p := props[prop]
	if p == nil {
		fail("no property %s", prop)
	}
	specs := p.Quick
	budget := 240
	if tier == "thorough" {
		specs = append(append([]Spec(nil), p.Quick...), p.Thorough...)
		budget = 700
	} else if p.Budget > 0 {
		budget = p.Budget
	}
	if len(os.Args) > 3 {
		var s2 []Spec
		for _, s := range specs {
			if s.H == os.Args[3] {
				s2 = append(s2, s)
			}
		}
		specs = s2
	}
	harnessDir := filepath.Join(root, "harness")
	race := false
	for _, s := range specs {
		race = race || s.Race
	}
	nb := startNative(harnessDir, harnessNames(harnessDir), p.Exponents, race)
	defer nb.close()
	prog, hp, _, err := loadProgram(harnessDir)
	if err != nil {
		nb.close()
		fail("%v", err)
	}
	loadS := time.Since(t0).Seconds()
	ex := &explorer{prog: prog, hpkg: hp, deadline: t0.Add(time.Duration(budget) * time.Second), funcs: nil, seen: map[string]int{}, solverTO: 4000, thorough: tier == "thorough"}
	ex.funcs = ssaFuncSet{}
	if ex.thorough {
		ex.solverTO = 15000
	}
	ex.cond = sync.NewCond(&ex.mu)
	var hrs []*harnessRun
	for i := range specs {
		fn := hp.Func(specs[i].H)
		if fn == nil {
			nb.close()
			fail("no harness %s", specs[i].H)
		}
		hrs = append(hrs, &harnessRun{spec: &specs[i], fn: fn, outcome: map[string]int{}, incon: map[string]int{}, notes: map[string]bool{}, reached: map[string]int{}})
	}
	findings := loadFindings(filepath.Join(root, "known-findings.txt"), prop)
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	// candidates are replayed on the real code as they are found
	var cmu sync.Mutex
	var confirmed []*Violation
	var spurious []string
	known := map[string]bool{}
	cands := make(chan *Violation, 100000)
	var cwg sync.WaitGroup
	confirmedKey := map[string]bool{}
	// a candidate that is not confirmed does not hide the next one
	unconfirmed := map[string]int{}
	tries := func(v *Violation) int {
		if v.Kind == "steps" {
			return 3
		} else if race {
			return 6
		}
		return 60
	}
	for i := 0; i < 3; i++ {
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			for v := range cands {
				key := v.Harness + "|" + v.Msg
				cmu.Lock()
				done := confirmedKey[key] || unconfirmed[key] >= tries(v) || time.Since(t0) > time.Duration(budget+60)*time.Second
				cmu.Unlock()
				if done {
					continue
				}
				ok, how := confirm(nb, v, seed, race)
				cmu.Lock()
				if ok {
					v.Native = how
					if confirmedKey[key] {
						cmu.Unlock()
						continue
					}
					confirmedKey[key] = true
					isKnown := false
					for _, f := range findings {
						if f.re.MatchString(v.Harness + ": " + v.Msg) {
							isKnown = true
							known[f.desc] = true
						}
					}
					if !isKnown {
						confirmed = append(confirmed, v)
						ex.mu.Lock()
						ex.stop = true
						ex.cond.Broadcast()
						ex.mu.Unlock()
					}
				} else {
					debugf("spurious %s %v %v", key, v.Assign, v.Path)
					unconfirmed[key]++
					spurious = append(spurious, key+": "+how)
				}
				cmu.Unlock()
			}
		}()
	}
	ex.onCand = func(v *Violation) { cands <- v }
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	ex.run(hrs, workers)
	close(cands)
	cwg.Wait()

	// native validation of path models and of a few random inputs
	validated, disagreed, nrandom := 0, 0, 0
	if len(confirmed) == 0 {
		type item struct {
			v *Violation
			s int64
		}
		var items []item
		for _, hr := range hrs {
			for _, v := range hr.valid {
				items = append(items, item{v, seed})
			}
			if hr.spec.Native >= 0 {
				for k := int64(0); k < 2; k++ {
					items = append(items, item{&Violation{Harness: hr.spec.H, Params: hr.spec.Params, Kind: "random"}, seed*1000 + k})
				}
			}
		}
		ch := make(chan item)
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for it := range ch {
					st, msg := nb.run(nativeSpec{Harness: it.v.Harness, Params: it.v.Params, Assignment: it.v.Assign, Seed: it.s}, 60*time.Second)
					cmu.Lock()
					switch st {
					case "ok":
						if it.v.Kind == "random" {
							nrandom++
						} else {
							validated++
						}
					case "assume":
					case "fail", "panic", "race":
						disagreed++
						it.v.Msg = "native run: " + msg
						it.v.Native = st
						if it.v.Kind == "random" {
							it.v.Msg += fmt.Sprintf(" (seed %d)", it.s)
							if it.v.Assign == nil {
								it.v.Assign = map[string]string{"seed": fmt.Sprint(it.s)}
							}
						}
						confirmed = append(confirmed, it.v)
					default:
						spurious = append(spurious, "native run of "+it.v.Harness+": "+st+" "+msg)
					}
					cmu.Unlock()
				}
			}()
		}
		for _, it := range items {
			if time.Since(t0) > time.Duration(budget+60)*time.Second {
				break
			}
			ch <- it
		}
		close(ch)
		wg.Wait()
	}

	// report
	var kf []string
	for k := range known {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	dir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	for i, v := range confirmed {
		if i >= 5 {
			break
		}
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
		jb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, jb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Printf("  harness %s: %s (%s)\n", v.Harness, clip(v.Msg, 400), clip(v.Native, 200))
	}
	ok := writeEvidence(root, prop, tier, seed, p, ex, hrs, confirmed, spurious, validated, nrandom, loadS, time.Since(t0), kf, nb)
	nb.close()
	if len(confirmed) > 0 {
		os.Exit(1)
	}
	if !ok {
		os.Exit(0)
	}
}

// confirm replays a candidate on the real code.
func confirm(nb *nativeBuild, v *Violation, seed int64, race bool) (bool, string) {
	to := 60 * time.Second
	if v.Kind == "steps" {
		to = 20 * time.Second
	}
	tries, par := 3, 1
	if race {
		tries, par = 96, 6
	}
	type result struct{ st, msg string }
	how := ""
	for i := 0; i < tries; i += par {
		rs := make([]result, par)
		var wg sync.WaitGroup
		for k := range rs {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				sp := nativeSpec{Harness: v.Harness, Params: v.Params, Assignment: v.Assign, Seed: seed + int64(i+k)}
				if race && i+k > 0 {
					sp.Jitter = int64(i + k)
				}
				rs[k].st, rs[k].msg = nb.run(sp, to)
			}(k)
		}
		wg.Wait()
		for _, r := range rs {
			switch r.st {
			case "fail", "panic", "race":
				return true, r.st + ": " + r.msg
			case "timeout":
				if v.Kind == "steps" || race {
					return true, r.st + ": " + r.msg
				}
			}
			how = r.st + " " + r.msg
		}
	}
	return false, "candidate not reproduced natively (" + how + ")"
}
