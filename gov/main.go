package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var specDir = filepath.Join(verifDir(), "contracts")

func load() error {
	if err := loadRepo(); err != nil {
		return err
	}
	if err := loadSpecs(specDir); err != nil {
		return err
	}
	linkCodecs()
	return initPackage()
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "gov:", err)
	os.Exit(2)
}

func allUnits() []*Contract {
	var l []*Contract
	for _, c := range contracts {
		l = append(l, c)
	}
	l = append(l, lemmas...)
	sort.Slice(l, func(i, j int) bool { return l[i].fn < l[j].fn })
	return l
}

func hasTag(tags []string, t string) bool {
	for _, x := range tags {
		if x == t {
			return true
		}
	}
	return false
}

func unitFor(name string) *Contract {
	if c := contracts[name]; c != nil {
		return c
	}
	for _, l := range lemmas {
		if l.fn == name || l.fn == "lemma:"+name {
			return l
		}
	}
	return nil
}

func unitsOf(prop string) []string {
	var out []string
	for _, c := range allUnits() {
		if c.inline || c.trusted != "" {
			continue
		}
		if prop == "all" || hasTag(c.tags, prop) {
			out = append(out, c.fn)
			continue
		}
		for _, e := range c.ensures {
			if hasTag(e.tags, prop) {
				out = append(out, c.fn)
				break
			}
		}
	}
	return out
}

// Report is what "gov prop" prints.
type Report struct {
	Property string
	Error    string `json:",omitempty"`
	Units    []*UnitResult
	Trusted  map[string]string
	Partial  map[string]bool `json:",omitempty"`
	Wall     float64
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gov ssa|unit|prop|worker|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	verbose := fs.Bool("v", false, "print every obligation")
	dbg := fs.Bool("loops", false, "print loop candidates")
	dbg2 := fs.Bool("loops2", false, "print facts of dropped candidates")
	jobs := fs.Int("j", 8, "parallel workers")
	out := fs.String("o", "", "report file")
	fs.StringVar(&repoDir, "repo", repoDir, "repository")
	fs.StringVar(&specDir, "specs", specDir, "contract directory")
	qdir := fs.String("queries", "", "directory for failed queries")
	fs.Parse(os.Args[2:])
	debugLoops, debugLoops2 = *dbg || *dbg2, *dbg2
	switch cmd {
	case "ssa":
		if err := loadRepo(); err != nil {
			die(err)
		}
		for _, a := range fs.Args() {
			if f := funcs[a]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", a)
			}
		}
		if fs.NArg() == 0 {
			for _, n := range sortedFuncNames() {
				fmt.Println(n)
			}
		}
	case "externals":
		if err := loadRepo(); err != nil {
			die(err)
		}
		listExternals()
	case "unit":
		if err := load(); err != nil {
			die(err)
		}
		for _, n := range fs.Args() {
			c := unitFor(n)
			if c == nil {
				fmt.Println("no contract for", n)
				continue
			}
			r := verifyUnit(c)
			printUnit(r, *verbose, *qdir)
		}
	case "list":
		if err := load(); err != nil {
			die(err)
		}
		for _, u := range unitsOf(fs.Arg(0)) {
			fmt.Println(u)
		}
	case "worker":
		if err := load(); err != nil {
			die(err)
		}
		w := bufio.NewWriter(os.Stdout)
		sc := bufio.NewScanner(os.Stdin)
		fmt.Fprintln(w, "ready")
		w.Flush()
		for sc.Scan() {
			c := unitFor(sc.Text())
			r := verifyUnit(c)
			data, err := json.Marshal(r)
			if err != nil {
				die(err)
			}
			w.Write(data)
			w.WriteByte('\n')
			w.Flush()
		}
	case "check":
		os.Exit(runCheck(fs.Arg(0), *jobs))
	case "prop":
		rep := runProp(fs.Arg(0), *jobs)
		if *out != "" {
			data, _ := json.MarshalIndent(rep, "", " ")
			if err := os.WriteFile(*out, data, 0o644); err != nil {
				die(err)
			}
		}
		bad := 0
		if rep.Error != "" {
			fmt.Println("ERROR", rep.Error)
			bad++
		}
		n := 0
		for _, u := range rep.Units {
			printUnit(u, *verbose, *qdir)
			for _, o := range u.Obs {
				n++
				if o.Failed {
					bad++
				}
			}
		}
		fmt.Printf("%s: %d units, %d obligations, %d failed, %.1f s\n", rep.Property, len(rep.Units), n, bad, rep.Wall)
		if bad > 0 {
			os.Exit(1)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func printUnit(r *UnitResult, verbose bool, qdir string) {
	fails := 0
	cnt := 0
	for _, o := range r.Obs {
		cnt += o.Count
		if o.Failed {
			fails++
		}
	}
	st := "ok"
	if fails > 0 {
		st = "FAILED"
	}
	fmt.Printf("%-6s %s: %d obligations (%d instances), %d paths, %.1f s, %d queries\n", st, r.Unit, len(r.Obs), cnt, r.Paths, r.Wall, r.Queries)
	for i, o := range r.Obs {
		if o.Failed {
			fmt.Printf("   FAIL %s [%s] %s: %s\n", o.Name, o.Pos, o.Msg, o.Reason)
			if verbose {
				fmt.Printf("        goal %s\n", o.Goal)
				for _, t := range o.Trail {
					fmt.Printf("        - %s\n", t)
				}
			}
			if qdir != "" {
				os.WriteFile(filepath.Join(qdir, fmt.Sprintf("%s-%d.smt2", strings.Map(safeRune, r.Unit), i)), []byte(o.Query+"(check-sat)\n(get-model)\n; "+o.Name+"\n"), 0o644)
			}
		} else if verbose {
			fmt.Printf("   ok   %s x%d %v\n", o.Name, o.Count, o.By)
		}
	}
}

func safeRune(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '_' {
		return r
	}
	return '_'
}

func runProp(prop string, jobs int) *Report {
	t0 := time.Now()
	rep := &Report{Property: prop, Trusted: map[string]string{}, Partial: map[string]bool{}}
	if err := load(); err != nil {
		rep.Error = err.Error()
		return rep
	}
	for n, c := range contracts {
		if c.trusted != "" {
			rep.Trusted[n] = c.trusted
		}
		if c.partial {
			rep.Partial[n] = true
		}
	}
	units := unitsOf(prop)
	// large units first
	sort.SliceStable(units, func(i, j int) bool { return unitFor(units[i]).limit > unitFor(units[j]).limit })
	runUnits(rep, units, jobs)
	rep.Wall = time.Since(t0).Seconds()
	return rep
}

// retry verifies some units again and replaces their results.
func retry(rep *Report, units []string, jobs int) {
	again := map[string]bool{}
	for _, u := range units {
		again[u] = true
	}
	var keep []*UnitResult
	for _, u := range rep.Units {
		if !again[u.Unit] {
			keep = append(keep, u)
		}
	}
	rep.Units = keep
	runUnits(rep, units, jobs)
}

func runUnits(rep *Report, units []string, jobs int) {
	ch := make(chan string, len(units))
	for _, u := range units {
		ch <- u
	}
	close(ch)
	if jobs > len(units) {
		jobs = len(units)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "worker", "-repo", repoDir, "-specs", specDir)
			in, _ := cmd.StdinPipe()
			o, _ := cmd.StdoutPipe()
			cmd.Stderr = os.Stderr
			if err := cmd.Start(); err != nil {
				mu.Lock()
				rep.Error = err.Error()
				mu.Unlock()
				return
			}
			rd := bufio.NewReaderSize(o, 1<<20)
			if l, err := rd.ReadString('\n'); err != nil || l != "ready\n" {
				mu.Lock()
				rep.Error = "worker failed to start"
				mu.Unlock()
				cmd.Wait()
				return
			}
			for u := range ch {
				fmt.Fprintln(in, u)
				line, err := rd.ReadBytes('\n')
				var r UnitResult
				if err == nil {
					err = json.Unmarshal(line, &r)
				}
				mu.Lock()
				if err != nil {
					rep.Units = append(rep.Units, &UnitResult{Unit: u, Obs: []*Obligation{{Name: u + "/supported", Kind: "supported", Failed: true, Count: 1, Reason: "verifier crashed: " + err.Error()}}})
					mu.Unlock()
					in.Close()
					cmd.Wait()
					return
				}
				rep.Units = append(rep.Units, &r)
				mu.Unlock()
			}
			in.Close()
			cmd.Wait()
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, u := range rep.Units {
		seen[u.Unit] = true
	}
	for _, u := range units {
		if !seen[u] {
			rep.Units = append(rep.Units, &UnitResult{Unit: u, Obs: []*Obligation{{Name: u + "/supported", Kind: "supported", Failed: true, Count: 1, Reason: "not verified"}}})
		}
	}
	sort.Slice(rep.Units, func(i, j int) bool { return rep.Units[i].Unit < rep.Units[j].Unit })
}
