package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

const lenBound = 1 << 40 // assumption: no sequence is longer than this

// ---- SMT-LIB emission ----

type emitter struct {
	sb     strings.Builder
	sorts  map[Sort]bool
	order  []Sort
	funs   map[string]string // symbol -> declaration
	forder []string
	names  map[*Term]string // shared closed subterms
	defs   strings.Builder
	refs   map[*Term]int
}

func q(s string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func (e *emitter) sort(s Sort) string {
	switch {
	case s == "Bool":
		return "Bool"
	case isBV(s):
		return fmt.Sprintf("(_ BitVec %d)", bvw(s))
	case strings.HasPrefix(s, "A."):
		k, v := arrSorts(s)
		return "(Array " + e.sort(k) + " " + e.sort(v) + ")"
	}
	if !e.sorts[s] {
		e.sorts[s] = true
		switch {
		case strings.HasPrefix(s, "R."):
			for _, f := range recTab[s] {
				e.sort(f.sort)
			}
		case strings.HasPrefix(s, "O."):
			e.sort(s[2:])
		case strings.HasPrefix(s, "S."):
			e.sort(s[2:])
		}
		e.order = append(e.order, s)
	}
	return q(s)
}

func (e *emitter) fun(name string, args []Sort, res Sort) string {
	n := q(name)
	if _, ok := e.funs[n]; !ok {
		var a []string
		for _, s := range args {
			a = append(a, e.sort(s))
		}
		e.funs[n] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(a, " "), e.sort(res))
		e.forder = append(e.forder, n)
	}
	return n
}

func (e *emitter) count(t *Term) {
	e.refs[t]++
	if e.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		e.count(a)
	}
}

func (e *emitter) expr(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	s := e.expr1(t)
	if !t.free && e.refs[t] > 1 && len(t.Args) > 0 && len(s) > 40 {
		n := fmt.Sprintf("$%d", t.ID)
		fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", n, e.sort(t.Sort), s)
		e.names[t] = n
		return n
	}
	return s
}

func (e *emitter) args(t *Term) string {
	var a []string
	for _, x := range t.Args {
		a = append(a, e.expr(x))
	}
	return strings.Join(a, " ")
}

func argSorts(t *Term) []Sort {
	var a []Sort
	for _, x := range t.Args {
		a = append(a, x.Sort)
	}
	return a
}

func (e *emitter) expr1(t *Term) string {
	e.sort(t.Sort)
	switch t.Op {
	case "var":
		return e.fun("v:"+t.Name, nil, t.Sort)
	case "bound":
		return q("b:" + t.Name)
	case "true", "false":
		return t.Op
	case "bv":
		return fmt.Sprintf("(_ bv%d %d)", t.Val, bvw(t.Sort))
	case "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvult", "bvule", "bvslt", "bvsle", "select", "store":
		return "(" + t.Op + " " + e.args(t) + ")"
	case "trunc":
		return fmt.Sprintf("((_ extract %d 0) %s)", bvw(t.Sort)-1, e.args(t))
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d) %s)", bvw(t.Sort)-bvw(t.Args[0].Sort), e.args(t))
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d) %s)", bvw(t.Sort)-bvw(t.Args[0].Sort), e.args(t))
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", e.sort(t.Sort), e.args(t))
	case "bytes":
		return e.fun(fmt.Sprintf("c:%x", t.Name), nil, "Bytes")
	case "eps":
		return e.fun("eps:"+t.Sort, nil, t.Sort)
	case "cat":
		f := e.fun("cat:"+t.Sort, []Sort{t.Sort, t.Sort}, t.Sort)
		r := e.expr(t.Args[len(t.Args)-1])
		for i := len(t.Args) - 2; i >= 0; i-- {
			r = "(" + f + " " + e.expr(t.Args[i]) + " " + r + ")"
		}
		return r
	case "unit", "len", "nth", "take", "upd", "listof", "drop", "be":
		f := e.fun(t.Op+":"+t.Args[0].Sort, argSorts(t), t.Sort)
		return "(" + f + " " + e.args(t) + ")"
	case "rec":
		if len(t.Args) == 0 {
			return q("mk:" + t.Sort)
		}
		return "(" + q("mk:"+t.Sort) + " " + e.args(t) + ")"
	case "sel":
		return "(" + q(t.Args[0].Sort+"/"+t.Name) + " " + e.args(t) + ")"
	case "some":
		return "(" + q("some:"+t.Sort) + " " + e.args(t) + ")"
	case "none":
		return q("none:" + t.Sort)
	case "isnone":
		return "((_ is " + q("none:"+t.Args[0].Sort) + ") " + e.args(t) + ")"
	case "unsome":
		return "(" + q("unsome:"+t.Args[0].Sort) + " " + e.args(t) + ")"
	case "app":
		n := "f:" + t.Name
		for _, a := range t.Args {
			n += ":" + a.Sort
		}
		f := e.fun(n, argSorts(t), t.Sort)
		if len(t.Args) == 0 {
			return f
		}
		return "(" + f + " " + e.args(t) + ")"
	case "forall":
		var vs []string
		for _, v := range t.Args[:len(t.Args)-1] {
			vs = append(vs, "("+q("b:"+v.Name)+" "+e.sort(v.Sort)+")")
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + e.expr(t.Args[len(t.Args)-1]) + ")"
	}
	panic("emit: " + t.Op)
}

// buildQuery renders the satisfiability problem for a set of facts.
func buildQuery(facts []*Term) string {
	for _, f := range theoryFacts(facts) {
		// quantified ones are added by satisfiable
		if !hasForall(f) {
			facts = append(facts, f)
		}
	}
	e := &emitter{sorts: map[Sort]bool{}, funs: map[string]string{}, names: map[*Term]string{}, refs: map[*Term]int{}}
	for _, f := range facts {
		e.count(f)
	}
	var asserts strings.Builder
	for _, f := range facts {
		s := e.expr(f)
		asserts.WriteString("(assert " + s + ")\n")
	}
	// distinct byte constants
	var cs []string
	for _, f := range e.forder {
		if strings.HasPrefix(f, "|c:") {
			cs = append(cs, f)
		}
	}
	if len(cs) > 0 {
		cs = append(cs, e.fun("eps:Bytes", nil, "Bytes"))
		asserts.WriteString("(assert (distinct " + strings.Join(cs, " ") + "))\n")
	}
	var out strings.Builder
	var dts, decl []string
	for _, s := range e.order {
		switch {
		case strings.HasPrefix(s, "R."):
			var b strings.Builder
			b.WriteString("((" + q("mk:"+s))
			for _, f := range recTab[s] {
				b.WriteString(" (" + q(s+"/"+f.name) + " " + e.sort(f.sort) + ")")
			}
			b.WriteString("))")
			dts = append(dts, b.String())
			decl = append(decl, "("+q(s)+" 0)")
		case strings.HasPrefix(s, "O."):
			dts = append(dts, "(("+q("none:"+s)+") ("+q("some:"+s)+" ("+q("unsome:"+s)+" "+e.sort(s[2:])+")))")
			decl = append(decl, "("+q(s)+" 0)")
		case s == "Bool" || isBV(s) || strings.HasPrefix(s, "A."):
		default:
			fmt.Fprintf(&out, "(declare-sort %s 0)\n", q(s))
		}
	}
	if len(dts) > 0 {
		fmt.Fprintf(&out, "(declare-datatypes (%s) (%s))\n", strings.Join(decl, " "), strings.Join(dts, "\n "))
	}
	for _, f := range e.forder {
		out.WriteString(e.funs[f])
	}
	out.WriteString(e.defs.String())
	out.WriteString(asserts.String())
	return out.String()
}

// theoryFacts instantiates the length facts for the sequence terms of a query.
func theoryFacts(facts []*Term) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	seen := map[*Term]bool{}
	var todo, apps []*Term
	doneApp := map[*Term]bool{}
	// how often the definition of a recursive function was unfolded
	depth := map[*Term]int{}
	var from *Term
	cf := newCodecFacts()
	visit := func(t *Term) {
		walk(t, seen, func(x *Term) {
			if x.free {
				return
			}
			if isSeq(x.Sort) && !done[x] {
				done[x] = true
				todo = append(todo, x)
			}
			if (x.Op == "app" || x.Op == "nth") && !doneApp[x] {
				doneApp[x] = true
				if from != nil {
					depth[x] = depth[from]
					if from.Name == x.Name {
						depth[x]++
					}
				}
				max := 3
				if d, ok := ufDepth[x.Name]; ok {
					max = d
				}
				if depth[x] < max {
					apps = append(apps, x)
				}
			}
			if x.Op == "len" && !done[x.Args[0]] {
				done[x.Args[0]] = true
				todo = append(todo, x.Args[0])
			}
			cf.visit(x)
		})
	}
	for _, f := range facts {
		visit(f)
	}
	for {
		switch {
		case len(apps) > 0:
			a := apps[0]
			apps = apps[1:]
			from = a
			for _, f := range appFacts(a) {
				out = append(out, f)
				visit(f)
			}
			from = nil
		case len(todo) > 0:
			x := todo[0]
			todo = todo[1:]
			l := Len(x)
			for _, f := range lenFacts(x, l) {
				out = append(out, f)
				visit(f)
			}
		default:
			more := cf.next()
			if len(more) == 0 {
				return out
			}
			for _, f := range more {
				out = append(out, f)
				visit(f)
			}
		}
	}
}

func lenFacts(x, l *Term) []*Term {
	var out []*Term
	if x.Op == "app" && l.Op != "len" {
		// for lengths of values equal to x
		out = append(out, mk("=", "", 0, "Bool", mk("len", "", 0, "BV64", x), l))
	}
	if l.Op == "bv" {
		return out
	}
	// the length of a compound sequence is already expanded; its parts are
	// visited on their own
	e := Eps(x.Sort)
	if l.Op == "len" {
		out = append(out, Ult(l, BV64(lenBound)))
		raw := mk("=", "", 0, "Bool", e, x)
		if e.ID > x.ID {
			raw = mk("=", "", 0, "Bool", x, e)
		}
		out = append(out, Eq(Eq(l, BV64(0)), raw))
	}
	return out
}

// hidden are the functions whose facts the current unit does not use.
var hidden map[string]bool

// appFacts gives the defining facts of an application.
func appFacts(a *Term) []*Term {
	var out []*Term
	if a.Op == "nth" {
		return nthFacts(a)
	}
	if a.Name == "card" {
		// the number of elements of a finite set
		return []*Term{Ult(a, BV64(lenBound)), Eq(Eq(a, BV64(0)), Eq(a.Args[0], ConstArr(a.Args[0].Sort, False)))}
	}
	if hidden[a.Name] {
		return out
	}
	for i, d := range ufFacts[a.Name] {
		if hidden[fmt.Sprintf("%s.%d", a.Name, i+1)] {
			continue
		}
		e := &Env{st: factState, names: map[string]Value{}, x: factEx}
		for i, p := range d.params {
			e.names[p] = VT{a.Args[i]}
		}
		out = append(out, e.evalBool(d.e))
	}
	return out
}

// nthFacts splits an index into a concatenation.
func nthFacts(a *Term) []*Term {
	s, i := a.Args[0], a.Args[1]
	switch s.Op {
	case "cat":
		head, rest := s.Args[0], Cat(s.Args[1:]...)
		l := Len(head)
		eq := func(x *Term) *Term { return Eq(a, x) }
		return []*Term{
			Imp(Ult(i, l), eq(Nth(head, i))),
			Imp(And(Ule(l, i), Ult(i, Len(s))), eq(Nth(rest, Sub(i, l)))),
		}
	case "unit":
		return []*Term{Imp(Eq(i, BV64(0)), Eq(a, s.Args[0]))}
	}
	return nil
}

var (
	factState = newState()
	factEx    = &Ex{}
)

func solverMs() map[string]int64 {
	m := map[string]int64{}
	for k, v := range stats {
		m[k] = int64(v.Seconds * 1000)
	}
	return m
}

func solverQueries() int {
	n := 0
	for _, v := range stats {
		n += v.Queries
	}
	return n
}

// ---- solver processes ----

type solver struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func startSolver(name string) (*solver, error) {
	var cmd *exec.Cmd
	switch name {
	case "z3-new", "z3":
		cmd = exec.Command(name, "-in", "-smt2")
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", "--incremental", "--produce-models", "--arrays-exp")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &solver{name: name, cmd: cmd, in: in, out: bufio.NewReader(out)}, nil
}

func (s *solver) kill() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

var solvers = map[string]*solver{}

type solverStat struct {
	Queries int     `json:"queries"`
	Unsat   int     `json:"unsat"`
	Sat     int     `json:"sat"`
	Unknown int     `json:"unknown"`
	Seconds float64 `json:"seconds"`
}

var stats = map[string]*solverStat{}
var queryCache = map[[32]byte]string{}

func runSolver(name, text string, timeoutMs int, model bool) (string, string) {
	s := solvers[name]
	if s == nil {
		var err error
		s, err = startSolver(name)
		if err != nil {
			return "error", err.Error()
		}
		solvers[name] = s
	}
	st := stats[name]
	if st == nil {
		st = &solverStat{}
		stats[name] = st
	}
	st.Queries++
	t0 := time.Now()
	var pre string
	if name == "cvc5" {
		pre = fmt.Sprintf("(reset)\n(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", timeoutMs)
	} else {
		pre = fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", timeoutMs)
		if model {
			pre += "(set-option :model.completion true)\n"
		}
	}
	go func() {
		io.WriteString(s.in, pre+text+"(check-sat)\n(echo \"<<done>>\")\n")
	}()
	res := ""
	timer := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond*2+5*time.Second, func() { s.cmd.Process.Kill() })
	var errs []string
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.kill()
			delete(solvers, name)
			res = "unknown"
			break
		}
		line = strings.TrimSpace(line)
		if strings.Trim(line, "\"") == "<<done>>" {
			break
		}
		switch line {
		case "sat", "unsat", "unknown", "timeout":
			res = line
		default:
			if strings.HasPrefix(line, "(error") {
				errs = append(errs, line)
			}
		}
	}
	timer.Stop()
	st.Seconds += time.Since(t0).Seconds()
	if res == "timeout" || res == "" {
		res = "unknown"
	}
	mod := ""
	if len(errs) > 0 {
		if os.Getenv("GOV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, name, errs[0])
			os.WriteFile("/tmp/gov-err.smt2", []byte(text), 0o644)
		}
		res, mod = "error", strings.Join(errs, "\n")
		if name == "cvc5" {
			s.kill()
			delete(solvers, name)
			res = "unknown"
		}
	} else if model && res == "sat" {
		io.WriteString(s.in, "(get-model)\n(echo \"<<done>>\")\n")
		var sb strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				s.kill()
				delete(solvers, name)
				break
			}
			if strings.Trim(strings.TrimSpace(line), "\"") == "<<done>>" {
				break
			}
			sb.WriteString(line)
		}
		mod = sb.String()
	}
	switch res {
	case "sat":
		st.Sat++
	case "unsat":
		st.Unsat++
	default:
		st.Unknown++
	}
	return res, mod
}

// splitStores tells apart the written and the other elements of an array
// where functions are applied to elements.
func splitStores(fs []*Term) []*Term {
	var out []*Term
	var split func(f *Term, depth int)
	split = func(f *Term, depth int) {
		if t := storeCase(f); t != nil && depth < 3 {
			a, i := t.Args[0], t.Args[1]
			c := Eq(a.Args[1], i)
			split(Imp(c, Replace(f, map[*Term]*Term{t: a.Args[2]})), depth+1)
			split(Imp(Not(c), Replace(f, map[*Term]*Term{t: Select(a.Args[0], i)})), depth+1)
			return
		}
		if f != True {
			out = append(out, f)
		}
	}
	for _, f := range fs {
		if hasForall(f) {
			out = append(out, f)
			continue
		}
		split(f, 0)
	}
	return out
}

func storeCase(f *Term) *Term {
	var r *Term
	seen := map[*Term]bool{}
	walk(f, seen, func(x *Term) {
		if r != nil || x.Op != "app" && x.Op != "nth" || x.free {
			return
		}
		walk(x, map[*Term]bool{}, func(y *Term) {
			if r == nil && y.Op == "select" && y.Args[0].Op == "store" && !y.free {
				r = y
			}
		})
	})
	return r
}

// satisfiable decides a set of facts: "sat", "unsat" or "unknown".
func satisfiable(facts []*Term, quick bool) (string, string) {
	var fs []*Term
	for _, f := range facts {
		if f == False {
			return "unsat", "simplifier"
		}
		if f != True {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return "sat", "simplifier"
	}
	traceGoal = fs[len(fs)-1]
	if sl := bitSlice(fs, traceGoal); sl != nil {
		if r, by := decide(sl, true); r == "unsat" {
			return r, by
		}
	}
	sortByID(fs)
	known := map[*Term]bool{}
	for _, f := range theoryFacts(fs) {
		if hasForall(f) {
			fs = append(fs, f)
			known[f] = true
		}
	}
	hasQ := false
	for _, f := range fs {
		if hasForall(f) {
			hasQ = true
		}
	}
	if hasQ {
		fs = instantiate(skolemise(fs))
		// what is defined by quantified facts and came up just now
		have := map[*Term]bool{}
		for _, f := range fs {
			have[f] = true
		}
		more := false
		for _, f := range theoryFacts(fs) {
			if hasForall(f) && !have[f] && !known[f] {
				fs = append(fs, f)
				more = true
			}
		}
		if more {
			fs = instantiate(skolemise(fs))
		}
		fs = splitStores(fs)
		ground, dropped := dropForalls(fs)
		for _, f := range ground {
			if f == False {
				return "unsat", "simplifier"
			}
		}
		if dropped {
			r, by := decide(ground, quick)
			if r == "unsat" || quick {
				if r == "sat" {
					r = "unknown"
				}
				return r, by
			}
		}
	}
	return decide(fs, quick)
}

func decide(fs []*Term, quick bool) (string, string) {
	text := buildQuery(fs)
	key := sha256.Sum256([]byte(text + fmt.Sprint(quick, quickMs)))
	if r, ok := queryCache[key]; ok {
		timedOut = timedOut || r == "unknown"
		return r, "cache"
	}
	lastQuery = text
	if d := os.Getenv("GOV_DUMP"); d != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/%03d.smt2", d, dumpN), []byte(text), 0o644)
	}
	type try struct {
		s string
		t int
	}
	tries := []try{{"z3-new", quickMs}}
	if !quick {
		tries = []try{{"z3-new", 2000}, {"cvc5", 4000}, {"z3", 4000}, {"z3-new", 15000}}
	}
	res := "unknown"
	by := ""
	for _, tr := range tries {
		start := time.Now()
		r, _ := runSolver(tr.s, text, tr.t*slow, false)
		if traceQueries {
			fmt.Printf("query %s %d ms %d bytes %s: %s\n", tr.s, time.Since(start).Milliseconds(), len(text), r, traceGoal.str(6))
		}
		if r == "error" {
			res = "error"
			break
		}
		if r == "sat" || r == "unsat" {
			res, by = r, tr.s
			break
		}
	}
	timedOut = timedOut || res == "unknown"
	queryCache[key] = res
	return res, by
}

// quickMs is the time limit of a quick query; timedOut is set when a query ran
// out of time.
var (
	quickMs  = 500
	timedOut bool
)

var lastQuery string
var traceGoal *Term
var traceQueries = os.Getenv("GOV_TRACE") != ""
var dumpN int

// slow multiplies the solver time limits.
var slow = func() int {
	if n, err := strconv.Atoi(os.Getenv("GOV_SLOW")); err == nil && n > 0 {
		return n
	}
	return 1
}()

// model returns a model of the facts as printed by z3.
func modelOf(facts []*Term) string {
	text := buildQuery(facts)
	_, m := runSolver("z3-new", text, 5000, true)
	if len(m) > 20000 {
		m = m[:20000] + "\n…"
	}
	return m
}
