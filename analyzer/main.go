// Command analyzer decides the properties of /verif/properties.jsonl from the
// type-checked source and the SSA form of arl/go-detour. It never runs the code
// under analysis.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// A Check decides one property.
type Check struct {
	ID    string
	Run   func(c *Ctx)
	Rule  string   // the rule applied, for the evidence
	Floor []Floor  // instance counts below which the check is vacuous
	Assum []string // assumptions the verdict rests on
}

// Floor is a minimal number of instances of a rule.
type Floor struct {
	Name string
	Min  int
}

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

// A Finding is a violation, or an obligation that could not be decided.
type Finding struct {
	Key  string // rule and construct; no line number
	Pos  string
	Msg  string
	Vari string // variant of the program it was found in
}

// Ctx is what a check works with.
type Ctx struct {
	*Prog
	check    *Check
	tier     string
	counts   map[string]int
	distinct map[string]bool
	samples  []string
	sampled  map[string]bool
	findings map[string]Finding
	lock     sync.Mutex
}

func (c *Ctx) Thorough() bool { return c.tier == "thorough" }

// Count adds n instances to the counter named name.
func (c *Ctx) Count(name string, n int) {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.counts[name] += n
}

// Distinct counts the distinct values of what under a name.
func (c *Ctx) Distinct(name, what string) {
	c.lock.Lock()
	defer c.lock.Unlock()
	k := name + "\x00" + what
	if !c.distinct[k] {
		c.distinct[k] = true
		c.counts[name]++
	}
}

// Parallel runs f for 0 to n-1; a panic of one is passed on.
func (c *Ctx) Parallel(n int, f func(i int)) {
	c.callGraph()
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var pmu sync.Mutex
	var pan interface{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() {
				if r := recover(); r != nil {
					pmu.Lock()
					pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
					pmu.Unlock()
				}
				<-sem
				wg.Done()
			}()
			f(i)
		}(i)
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

// Sample records an analysed instance for the evidence.
func (c *Ctx) Sample(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.lock.Lock()
	defer c.lock.Unlock()
	if !c.sampled[s] {
		c.sampled[s] = true
		c.samples = append(c.samples, s)
	}
}

// Violate reports a violation identified by key (rule and construct).
func (c *Ctx) Violate(key, pos, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	c.lock.Lock()
	defer c.lock.Unlock()
	f, ok := c.findings[key]
	if ok && f.Pos <= pos {
		return
	}
	c.findings[key] = Finding{key, pos, msg, c.variant}
}

// Undecided reports an obligation the analysis cannot decide; it fails the check.
func (c *Ctx) Undecided(key, pos, format string, args ...interface{}) {
	c.Violate("undecided:"+key, pos, "UNDECIDED "+format, args...)
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory of this framework")
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	all := flag.Bool("all", false, "run every check on one load of the program")
	list := flag.Bool("list", false, "list the checks")
	dump := flag.String("dump", "", "print the SSA of functions whose name contains this")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.StringVar(&only, "only", "", "restrict the flow analyses to functions whose name contains this (debugging)")
	prof := flag.String("prof", "", "write a CPU profile")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	if *prof != "" {
		pf, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(pf)
			time.AfterFunc(20*time.Second, func() { pprof.StopCPUProfile(); os.Exit(1) })
		}
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if *dump != "" {
		p, err := load(*repo, variants[0])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		p.dump(*dump)
		return
	}
	if *all {
		os.Exit(runAll(*repo, *verif, *tier))
	}
	os.Exit(runOne(*repo, *verif, *id, *tier, nil))
}

var verbose bool
var debugLoops = os.Getenv("DEBUGLOOPS") != ""
var only string

func runAll(repo, verif, tier string) int {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	p, err := load(repo, variants[0])
	if err != nil {
		fmt.Println("load:", err)
	}
	rc := 0
	for _, id := range ids {
		t := time.Now()
		r := runOne(repo, verif, id, tier, p)
		fmt.Printf("%s rc=%d %.1fs\n", id, r, time.Since(t).Seconds())
		if r != 0 {
			rc = 1
		}
	}
	return rc
}

// runOne runs one check on every variant of the program for the tier.
func runOne(repo, verif, id, tier string, pre *Prog) (rc int) {
	start := time.Now()
	chk := checks[id]
	c := &Ctx{tier: tier, counts: map[string]int{}, distinct: map[string]bool{}, sampled: map[string]bool{}, findings: map[string]Finding{}}
	c.check = chk
	var loaded []string
	if chk == nil {
		c.check = &Check{ID: id}
		c.findings["no-check"] = Finding{Key: "no-check", Msg: "no check named " + id}
	} else {
		vs := variants
		if tier == "quick" {
			vs = vs[:1]
		}
		for vi, v := range vs {
			p := pre
			if p == nil || vi > 0 {
				var err error
				p, err = load(repo, v)
				if err != nil {
					c.findings["load"] = Finding{Key: "load", Msg: "cannot analyse the program (" + v.name + "): " + err.Error()}
					continue
				}
			}
			loaded = append(loaded, fmt.Sprintf("%s: %d packages, %d functions with source", v.name, len(p.pkgs), len(p.srcFuncs)))
			c.Prog = p
			func() {
				defer func() {
					if r := recover(); r != nil {
						if verbose {
							fmt.Printf("%v\n%s\n", r, debug.Stack())
						}
						c.Undecided("analysis", "", "the analysis could not be completed (%s): %v", v.name, r)
					}
				}()
				chk.Run(c)
			}()
			if vi == 0 {
				for _, f := range chk.Floor {
					if c.counts[f.Name] < f.Min {
						c.Undecided("floor:"+f.Name, "", "only %d instances of %q were found, %d are expected: the rule does not see what it is about",
							c.counts[f.Name], f.Name, f.Min)
					}
				}
			}
		}
	}
	return finish(c, verif, loaded, start)
}

// knownFindings reads the committed list of genuine defects that are not repaired.
func knownFindings(verif, id string) (map[string]string, error) {
	data, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(data), "\n") {
		// known: property=<id> key=<key> :: <what fails>
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		k, what, _ := strings.Cut(l, " :: ")
		m[strings.TrimSpace(k)] = what
	}
	return m, nil
}

func finish(c *Ctx, verif string, loaded []string, start time.Time) int {
	id := c.check.ID
	known, err := knownFindings(verif, id)
	if err != nil {
		c.findings["known-findings"] = Finding{Key: "known-findings", Msg: err.Error()}
	}
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var rep bytes.Buffer
	viol := 0
	var knownLines []string
	for _, k := range keys {
		f := c.findings[k]
		if what, ok := known[k]; ok {
			knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, what))
			continue
		}
		viol++
		fmt.Fprintf(&rep, "[%s] %s\n    key: %s\n    %s\n", id, f.Pos, f.Key, strings.ReplaceAll(f.Msg, "\n", "\n    "))
	}
	var names []string
	for n := range c.counts {
		names = append(names, n)
	}
	sort.Strings(names)
	cov := map[string]interface{}{"analysed": loaded, "rule": c.check.Rule}
	var cs []string
	total := 0
	for _, n := range names {
		cs = append(cs, fmt.Sprintf("%s: %d", n, c.counts[n]))
		total += c.counts[n]
	}
	cov["instances"] = c.counts
	sort.Strings(c.samples)
	s := c.samples
	if len(s) > 60 {
		s = s[:60]
	}
	cov["samples"] = s
	cov["explanation"] = "Static analysis of the current source. Rule: " + c.check.Rule + " Instances: " + strings.Join(cs, ", ") + "."
	if len(knownLines) > 0 {
		cov["known_findings"] = knownLines
	}
	ev := map[string]interface{}{
		"property": id, "tier": c.tier, "seed": 1, "level": "other",
		"coverage": cov, "assumptions": append([]string{}, c.check.Assum...),
		"wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence", "reports"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		viol++
	}
	report := filepath.Join(verif, "evidence", "reports", id+".txt")
	fmt.Printf("%s (%s): %s; %s\n", id, c.tier, strings.Join(loaded, "; "), strings.Join(cs, ", "))
	for _, l := range knownLines {
		fmt.Println(l)
	}
	if viol == 0 {
		os.Remove(report)
		return 0
	}
	fmt.Print(rep.String())
	os.WriteFile(report, rep.Bytes(), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	return 1
}
