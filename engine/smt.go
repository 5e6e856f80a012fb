package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	mu      sync.Mutex
	Queries int
	ByTool  map[string]int
	Time    time.Duration
	Ground  time.Duration // spent instantiating quantifiers
}

// Solver drives one long-lived z3 process plus one-shot fallbacks.
type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defd    map[int]bool   // term id defined as macro
	decl    map[*Decl]bool // declared
	dead    bool
	started bool
	Stats   *SolverStats
	proxy   map[int]*Term
	skol    map[int]*Term
	buf     strings.Builder
	shortMS int
	curMS   int // overrides shortMS when positive
	setMS   int // what the incremental solver was told
	longS   int
	cache   map[string]Result
	last    []*Term // last ground formula set
	tmp     string
	groundT time.Duration
}

func NewSolver(c *Ctx, st *SolverStats) *Solver {
	return &Solver{c: c, Stats: st, proxy: map[int]*Term{}, skol: map[int]*Term{}, shortMS: 2500, longS: 40, cache: map[string]Result{}}
}

func sortStr(s Sort) string {
	if s == SBool {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic("cannot start z3-new: " + err.Error())
	}
	s.defd = map[int]bool{}
	s.decl = map[*Decl]bool{}
	s.started = true
	s.dead = false
	s.buf.Reset()
	s.buf.WriteString("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :auto_config true)\n")
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n(set-option :rlimit %d)\n(set-logic ALL)\n", s.shortMS*wallFactor, s.shortMS*rlimitBV)
	s.setMS = s.shortMS
}

func (s *Solver) Close() {
	if s.started && s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.started = false
}

func quote(n string) string { return "|" + n + "|" }

// ref prints a reference to a term, defining macros for inner nodes.
func leaf(t *Term) (string, bool) {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			if t.val == 1 {
				return "true", true
			}
			return "false", true
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, int(t.sort)), true
	case OVar:
		return quote(t.decl.Name), true
	}
	return "", false
}

func body(t *Term, ref func(*Term) string) string {
	var sb strings.Builder
	switch t.op {
	case OApp:
		sb.WriteString("(" + quote(t.decl.Name))
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d)", t.val>>8, t.val&0xff)
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d)", int(t.sort-t.args[0].sort))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d)", int(t.sort-t.args[0].sort))
	case OForall:
		panic("quantifier reached solver")
	default:
		sb.WriteString("(" + opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func declText(d *Decl) string {
	var a []string
	for _, x := range d.Args {
		a = append(a, sortStr(x))
	}
	return fmt.Sprintf("(declare-fun %s (%s) %s)\n", quote(d.Name), strings.Join(a, " "), sortStr(d.Res))
}

func (s *Solver) define(t *Term, w *strings.Builder, defd map[int]bool, decl map[*Decl]bool) string {
	if t.decl != nil && !decl[t.decl] {
		decl[t.decl] = true
		w.WriteString(declText(t.decl))
	}
	if l, ok := leaf(t); ok {
		return l
	}
	name := "t" + strconv.Itoa(t.id)
	if defd[t.id] {
		return name
	}
	// iterative post-order to avoid deep recursion is unnecessary at our sizes
	b := body(t, func(a *Term) string { return s.define(a, w, defd, decl) })
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", name, sortStr(t.sort), b)
	defd[t.id] = true
	return name
}

// ---- quantifier grounding ----

func (c *Ctx) collect(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	f(t)
	for _, a := range t.args {
		c.collect(a, seen, f)
	}
}

const (
	posP = 1
	negP = 2
)

func (s *Solver) proxied(t *Term, memo map[int]*Term) *Term {
	if !t.hasQ {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == OForall {
		p, ok := s.proxy[t.id]
		if !ok {
			p = s.c.Fresh("q"+strconv.Itoa(t.id), SBool)
			s.proxy[t.id] = p
		}
		r = p
	} else {
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = s.proxied(a, memo)
		}
		r = s.c.rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

func polarity(t *Term, pol int, seen map[[2]int]bool, out map[*Term]int) {
	if !t.hasQ || seen[[2]int{t.id, pol}] {
		return
	}
	seen[[2]int{t.id, pol}] = true
	switch t.op {
	case OForall:
		out[t] |= pol
	case ONot:
		polarity(t.args[0], 3&^pol|(pol&0), seen, out)
	case OAnd, OOr:
		for _, a := range t.args {
			polarity(a, pol, seen, out)
		}
	case OIte:
		polarity(t.args[0], posP, seen, out)
		polarity(t.args[0], negP, seen, out)
		polarity(t.args[1], pol, seen, out)
		polarity(t.args[2], pol, seen, out)
	default:
		for _, a := range t.args {
			polarity(a, posP, seen, out)
			polarity(a, negP, seen, out)
		}
	}
}

func (s *Solver) Ground(fs []*Term) []*Term { return s.groundN(fs, 4, 800, false) }

// groundN instantiates the quantifiers in at most rounds rounds and limit instances.
// With goal set, only terms of the last formula (the negated goal) and of the
// instances made from them trigger instantiation.
func (s *Solver) groundN(fs []*Term, rounds, limit int, goal bool) []*Term {
	t0 := time.Now()
	defer func() { s.groundT += time.Since(t0) }()
	c := s.c
	memo := map[int]*Term{}
	var out []*Term
	outSeen := map[int]bool{}
	pend := []*Term{}
	quants := map[*Term]int{}
	var qlist []*Term
	polSeen := map[[2]int]bool{}
	appsBy := map[*Decl][]*Term{}
	seenT := map[int]bool{}
	var skolems []*Term
	addFacts := []*Term{}
	collecting := true
	gen, curDepth := 0, 0
	appGen := map[int]int{} // generation an application first appeared in
	depth := map[int]int{}  // how many instantiations exposed a quantifier
	var addG func(f *Term)
	addG = func(f *Term) { // f may contain quantifiers
		pm := map[*Term]int{}
		polarity(f, posP, polSeen, pm)
		for q, p := range pm {
			if _, ok := quants[q]; !ok {
				qlist = append(qlist, q)
				depth[q.id] = curDepth
			}
			quants[q] |= p
		}
		g := s.proxied(f, memo)
		if g.isTrue() || outSeen[g.id] {
			return
		}
		outSeen[g.id] = true
		out = append(out, g)
		c.collect(g, seenT, func(t *Term) {
			if t.decl == nil {
				return
			}
			if t.op == OApp && collecting {
				appsBy[t.decl] = append(appsBy[t.decl], t)
				appGen[t.id] = gen
			}
			if t.decl.Skol && collecting {
				skolems = append(skolems, t)
			}
			if t.decl.HasRng {
				// t.rng() consulted in simplification: assert explicitly on a raw node
				m := mask(t.sort)
				if t.decl.Lo > 0 {
					addFacts = append(addFacts, c.mk(OUle, SBool, 0, nil, c.BV(t.decl.Lo, t.sort), t))
				}
				if t.decl.Hi < m {
					addFacts = append(addFacts, c.mk(OUle, SBool, 0, nil, t, c.BV(t.decl.Hi, t.sort)))
				}
			}
			if t.decl.WF != nil {
				addFacts = append(addFacts, t.decl.WF(c, t.args)...)
			}
		})
	}
	flush := func() {
		for len(addFacts) > 0 {
			f := addFacts
			addFacts = nil
			for _, x := range f {
				addG(x)
			}
		}
	}
	for i, f := range fs {
		collecting = !goal || i == len(fs)-1
		if collecting && goal {
			seenT = map[int]bool{}
		}
		addG(f)
	}
	collecting = true
	flush()
	_ = pend
	doneInst := map[[2]int]bool{}
	doneSk := map[int]bool{}
	n := 0
	for round := 0; round < rounds; round++ {
		changed := false
		gen = round
		sort.Slice(qlist, func(i, j int) bool { return qlist[i].id < qlist[j].id })
		for qi := 0; qi < len(qlist); qi++ {
			q := qlist[qi]
			k, lo, hi, bd := q.args[0], q.args[1], q.args[2], q.args[3]
			p := s.proxy[q.id]
			if p == nil {
				continue
			}
			if quants[q]&negP != 0 && !doneSk[q.id] {
				doneSk[q.id] = true
				sk := s.skol[q.id]
				if sk == nil {
					sk = c.Fresh("sk"+strconv.Itoa(q.id), 64)
					sk.decl.Skol = true
					s.skol[q.id] = sk
				}
				addG(c.Or(p, c.And(c.Sle(lo, sk), c.Slt(sk, hi), c.Not(c.Subst(bd, k, sk)))))
				flush()
				changed = true
			}
		}
		for qi := 0; qi < len(qlist); qi++ {
			q := qlist[qi]
			if quants[q]&posP == 0 {
				continue
			}
			k, lo, hi, bd := q.args[0], q.args[1], q.args[2], q.args[3]
			p := s.proxy[q.id]
			if p == nil {
				continue
			}
			cands := map[*Term]bool{}
			var cl []*Term
			addC := func(t *Term) {
				if t.hasB || cands[t] {
					return
				}
				cands[t] = true
				cl = append(cl, t)
			}
			gen = round + 1
			curDepth = depth[q.id] + 1
			// a quantifier exposed by instantiating another one is driven by
			// the goal's own terms first
			nested := limit < 600 && depth[q.id] > 0
			maxGen := 1 << 20
			if nested {
				maxGen = 0
			} else if depth[q.id] > 0 {
				maxGen = 2
			}
			if nested && rounds == 1 {
				continue
			}
			if !nested {
				addC(lo)
				addC(c.AddC(hi, -1))
			}
			for _, sk := range skolems {
				addC(sk)
			}
			pat := bd
			if len(q.args) > 4 {
				pat = q.args[4]
			}
			c.collect(pat, map[int]bool{}, func(t *Term) {
				if t.op != OApp || !t.hasB {
					return
				}
				for i, a := range t.args {
					if !a.hasB || a.sort != 64 {
						continue
					}
					m := map[*Term]uint64{}
					var kc uint64
					c.lin(a, 1, m, &kc)
					co := m[k]
					if co != 1 && co != ^uint64(0) {
						continue
					}
					delete(m, k)
					rest := c.fromLin(m, kc, 64)
					if rest.hasB {
						continue
					}
					for _, g := range appsBy[t.decl] {
						ok := appGen[g.id] <= maxGen
						for j, b := range t.args {
							if j != i && !b.hasB && c.Eq(b, g.args[j]).isFalse() {
								ok = false
							}
						}
						if !ok {
							continue
						}
						if co == 1 {
							addC(c.Sub(g.args[i], rest))
						} else {
							addC(c.Sub(rest, g.args[i]))
						}
					}
				}
			})
			for _, t := range cl {
				key := [2]int{q.id, t.id}
				if doneInst[key] || n > limit {
					continue
				}
				inb := c.And(c.Sle(lo, t), c.Slt(t, hi))
				if inb.isFalse() {
					continue
				}
				doneInst[key] = true
				n++
				addG(c.Or(c.Not(p), c.Not(inb), c.Subst(bd, k, t)))
				changed = true
			}
			flush()
			curDepth = 0
		}
		if !changed {
			break
		}
	}
	if instDbg {
		cnt := map[int]int{}
		for k := range doneInst {
			cnt[k[0]]++
		}
		fmt.Fprintf(os.Stderr, "  INST goal=%v rounds=%d n=%d facts=%d goal: %s\n", goal, rounds, n, len(out), fs[len(fs)-1])
		for _, q := range qlist {
			fmt.Fprintf(os.Stderr, "      %d x %s\n", cnt[q.id], q)
		}
	}
	return out
}

var instDbg = os.Getenv("GOVC_INST") != ""

func (s *Solver) key(fs []*Term) string {
	ids := make([]int, len(fs))
	for i, f := range fs {
		ids[i] = f.id
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	return sb.String()
}

// Check decides satisfiability of the conjunction fs. If long, harder
// back ends are tried when the incremental solver gives up.
// Feas is a quick check for pruning: anything but Unsat means "keep".
func (s *Solver) Feas(fs []*Term) Result {
	old := s.curMS
	s.curMS = 400
	defer func() { s.curMS = old }()
	return s.Check(fs, false)
}

func (s *Solver) Check(fs []*Term, long bool) Result {
	for _, f := range fs {
		if f.isFalse() {
			return Unsat
		}
	}
	k := s.key(fs)
	if r, ok := s.cache[k]; ok && (r != Unknown || !long && s.curMS == 400) {
		return r
	}
	if long {
		k = "L" + k
		if r, ok := s.cache[k]; ok {
			return r
		}
	} else if s.curMS != 400 {
		k = "S" + k
		if r, ok := s.cache[k]; ok {
			return r
		}
	}
	t0 := time.Now()
	hasQ := false
	for _, f := range fs {
		hasQ = hasQ || f.hasQ
	}
	var g []*Term
	r, tool := Unknown, "z3-new(incremental)"
	if hasQ {
		// few instances first: most goals need no more
		g = s.groundN(fs, 3, 200, true)
		ms := 1000
		if s.curMS > 0 {
			ms = s.curMS * 2 / 3
		}
		vs := []variant{{g, "few", 2}}
		if long {
			ms = 5000
			vs = []variant{{s.groundN(fs, 1, 60, true), "least", 2}, {g, "few", 3}, {s.groundN(fs, 2, 250, false), "more", 2}}
		}
		for _, v := range vs {
			for _, f := range v.g {
				if f.isFalse() {
					r, tool = Unsat, "simplifier"
				}
			}
		}
		if r == Unknown {
			r, tool = s.oneshot(vs, ms, false)
		}
	}
	if r == Unknown && (!hasQ || long) {
		g = s.Ground(fs)
		r = s.incr(g, nil, nil)
	}
	s.last = g
	if r == Unknown && long {
		vs := []variant{{g, "", 5}}
		if hasQ {
			vs = append(vs, variant{s.groundN(fs, 4, 500, true), "few", 2})
		}
		r, tool = s.oneshot(vs, s.longS*1000, true)
	}
	if slowMS > 0 && time.Since(t0) > time.Duration(slowMS)*time.Millisecond {
		fmt.Fprintf(os.Stderr, "  SLOW %v %s %s n=%d long=%v last: %s\n", time.Since(t0), r, tool, len(g), long, fs[len(fs)-1])
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.Stats.Queries), []byte(s.script(g)), 0o644)
		ga := s.groundN(fs, 1, 60, true)
		gb := s.groundN(fs, 2, 250, false)
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.A.smt2", s.Stats.Queries), []byte(s.script(ga)), 0o644)
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.B.smt2", s.Stats.Queries), []byte(s.script(gb)), 0o644)
		is, _ := s.intScript(ga)
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.Aint.smt2", s.Stats.Queries), []byte(is), 0o644)
		is, _ = s.intScript(gb)
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.Bint.smt2", s.Stats.Queries), []byte(is), 0o644)
		if is, ok := s.intScript(g); ok {
			os.WriteFile(fmt.Sprintf("/tmp/slow%d.int.smt2", s.Stats.Queries), []byte(is), 0o644)
		}
	}
	s.Stats.mu.Lock()
	s.Stats.Queries++
	s.Stats.ByTool[tool]++
	s.Stats.Time += time.Since(t0)
	s.Stats.Ground = s.groundT
	s.Stats.mu.Unlock()
	s.cache[k] = r
	if r != Unknown && (k[0] == 'L' || k[0] == 'S') {
		s.cache[k[1:]] = r
	}
	return r
}

func (s *Solver) limit() int {
	if s.curMS > 0 {
		return s.curMS
	}
	return s.shortMS
}

func (s *Solver) incr(g []*Term, vals []*Term, got map[*Term]uint64) Result {
	for _, f := range g {
		if f.isFalse() {
			return Unsat
		}
	}
	if !s.started || s.dead || len(s.defd) > 400000 {
		s.Close()
		s.start()
	}
	var refs []string
	for _, f := range g {
		refs = append(refs, s.define(f, &s.buf, s.defd, s.decl))
	}
	var vrefs []string
	for _, v := range vals {
		vrefs = append(vrefs, s.define(v, &s.buf, s.defd, s.decl))
	}
	if ms := s.limit(); ms != s.setMS {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n(set-option :rlimit %d)\n", ms*wallFactor, ms*rlimitBV)
		s.setMS = ms
	}
	s.buf.WriteString("(push)\n")
	for _, r := range refs {
		s.buf.WriteString("(assert " + r + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.dead = true
		return Unknown
	}
	if dbgSMT != nil {
		dbgSMT.WriteString(s.buf.String())
	}
	s.buf.Reset()
	line := s.readLine(time.Duration(s.shortMS*wallFactor)*time.Millisecond + 20*time.Second)
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			panic("solver error: " + line)
		}
	}
	if res == Sat && vals != nil && !s.dead {
		for i, v := range vrefs {
			io.WriteString(s.in, "(get-value ("+v+"))\n")
			l := s.readLine(20 * time.Second)
			got[vals[i]] = parseVal(l)
			if s.dead {
				break
			}
		}
	}
	if !s.dead {
		s.buf.WriteString("(pop)\n")
	}
	return res
}

var dbgSMT *os.File

func parseVal(l string) uint64 {
	// ((t #x..)) or ((t true))
	l = strings.TrimRight(l, ")")
	i := strings.LastIndexAny(l, " ")
	v := strings.TrimSpace(l[i+1:])
	switch {
	case v == "true":
		return 1
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	}
	return 0
}

func (s *Solver) readLine(to time.Duration) string {
	type rl struct {
		l string
		e error
	}
	ch := make(chan rl, 1)
	go func() {
		l, e := s.out.ReadString('\n')
		ch <- rl{l, e}
	}()
	select {
	case r := <-ch:
		if r.e != nil {
			s.dead = true
		}
		return strings.TrimSpace(r.l)
	case <-time.After(to):
		s.dead = true
		s.cmd.Process.Kill()
		return "timeout"
	}
}

func (s *Solver) script(g []*Term) string {
	var w strings.Builder
	w.WriteString("(set-logic QF_UFBV)\n")
	defd, decl := map[int]bool{}, map[*Decl]bool{}
	var refs []string
	for _, f := range g {
		refs = append(refs, s.define(f, &w, defd, decl))
	}
	for _, r := range refs {
		w.WriteString("(assert " + r + ")\n")
	}
	w.WriteString("(check-sat)\n")
	return w.String()
}

var dbgErr = os.Getenv("GOVC_SLOW") != ""

var slowMS, _ = strconv.Atoi(os.Getenv("GOVC_SLOW"))

var oneshotSem = make(chan struct{}, 8)

// variant is one set of ground instances of a query; n limits how many solvers run on it.
type variant struct {
	g   []*Term
	tag string
	n   int
}

// Short queries are limited by solver effort rather than by the clock, so that
// a busy machine decides them the same way; the clock is a fallback.
const (
	rlimitBV   = 2500 // effort units per nominal millisecond
	rlimitInt  = 800
	wallFactor = 5
)

// oneshot races several solvers on the variants of a query. Only the variant
// with an empty tag may answer sat, and only through the bit-vector encoding.
func (s *Solver) oneshot(vs []variant, ms int, sat bool) (Result, string) {
	type ans struct {
		r Result
		t string
	}
	type tool struct {
		args []string
		tag  string
		sat  bool
	}
	var tools []tool
	zt, ct := fmt.Sprintf("-t:%d", ms), fmt.Sprintf("--tlimit=%d", ms)
	short := ms < 5000
	rb, ri := "rlimit=0", "rlimit=0"
	if short {
		zt = fmt.Sprintf("-t:%d", ms*wallFactor)
		rb, ri = fmt.Sprintf("rlimit=%d", ms*rlimitBV), fmt.Sprintf("rlimit=%d", ms*rlimitInt)
	}
	file := func(text string) string {
		f, err := os.CreateTemp("", "govc*.smt2")
		if err != nil {
			return ""
		}
		f.WriteString(text)
		f.Close()
		return f.Name()
	}
	for _, v := range vs {
		fb := file(s.script(v.g))
		defer os.Remove(fb)
		tag := ""
		if v.tag != "" {
			tag = "," + v.tag
		}
		fi := ""
		if is, ok := s.intScript(v.g); ok {
			fi = file(is)
			defer os.Remove(fi)
		}
		all := []tool{{[]string{"z3-new", zt, rb, fb}, "bv" + tag, sat && tag == ""}}
		if fi != "" {
			all = append(all, tool{[]string{"z3-new", zt, ri, fi}, "int" + tag, false})
		}
		all = append(all, tool{[]string{"cvc5", ct, fb}, "bv" + tag, sat && tag == ""})
		if fi != "" {
			all = append(all, tool{[]string{"cvc5", ct, fi}, "int" + tag, false})
		}
		all = append(all, tool{[]string{"z3", zt, rb, fb}, "bv" + tag, sat && tag == ""})
		if len(all) > v.n {
			all = all[:v.n]
		}
		tools = append(tools, all...)
	}
	ch := make(chan ans, len(tools))
	var procs []*exec.Cmd
	for _, t := range tools {
		cmd := exec.Command(t.args[0], t.args[1:]...)
		procs = append(procs, cmd)
		go func(cmd *exec.Cmd, t tool) {
			out, _ := cmd.Output()
			l := strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
			if strings.HasPrefix(l, "(error") && dbgErr {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR", l)
			}
			switch {
			case l == "sat" && t.sat:
				ch <- ans{Sat, t.args[0] + "(" + t.tag + ")"}
			case l == "unsat":
				ch <- ans{Unsat, t.args[0] + "(" + t.tag + ")"}
			default:
				ch <- ans{Unknown, t.args[0]}
			}
		}(cmd, t)
	}
	res := ans{Unknown, "none"}
	to := time.After(time.Duration(ms*wallFactor+3000) * time.Millisecond)
loop:
	for range tools {
		select {
		case a := <-ch:
			if a.r != Unknown {
				res = a
				break loop
			}
		case <-to:
			break loop
		}
	}
	for _, p := range procs {
		if p.Process != nil {
			p.Process.Kill()
		}
	}
	return res.r, res.t + "(one-shot)"
}

// Model returns values of vals under a model of fs, if one is found.
func (s *Solver) Model(fs []*Term, vals []*Term) (map[*Term]uint64, bool) {
	g := s.Ground(fs)
	got := map[*Term]uint64{}
	old := s.shortMS
	r := s.incr(g, vals, got)
	s.shortMS = old
	return got, r == Sat
}
