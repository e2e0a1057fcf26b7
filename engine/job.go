package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Job is one harness function to explore.
type Job struct {
	Name     string
	Fn       *CFunc
	Thorough bool
	MaxSteps int64
	Deadline time.Time

	mu    sync.Mutex
	Res   *JobResult
	start time.Time
	end   time.Time
}

type Violation struct {
	Harness string   `json:"harness"`
	Label   string   `json:"label"`
	Inputs  []InVal  `json:"inputs"`
	Where   string   `json:"where"`
	Thor    bool     `json:"thorough"`
	Logs    []string `json:"logs,omitempty"`
	Steps   bool     `json:"nontermination,omitempty"`
}

type Sample struct {
	Harness string      `json:"harness"`
	Inputs  []InVal     `json:"inputs"`
	Obs     [][2]string `json:"obs"`
	Thor    bool        `json:"thorough"`
}

type JobResult struct {
	Paths, Completed, Assumed, Violating int64
	Steps, Forks, Merges                 int64
	Asserts                              int64
	Undecided                            int
	Truncated                            int64 // choices dropped because time ran out
	Unsup                                map[string]int
	Labels                               map[string]int64
	Reach                                map[string]int64
	VCount                               map[string]int64
	Viol                                 []Violation
	Samples                              []Sample
	Notes                                map[string]int
	Funcs                                map[*CFunc]int64
	Solver                               SolverStats
	MaxPathSteps                         int64
}

func newResult() *JobResult {
	return &JobResult{Unsup: map[string]int{}, Labels: map[string]int64{}, Reach: map[string]int64{}, VCount: map[string]int64{}, Notes: map[string]int{}, Funcs: map[*CFunc]int64{}}
}

func (r *JobResult) note(s string) {
	if len(s) > 300 {
		s = s[:300]
	}
	r.Notes[s]++
}
func (r *JobResult) undecided(s string) { r.Undecided++; r.note("undecided: " + s) }

func (r *JobResult) merge(o *JobResult) {
	r.Paths += o.Paths
	r.Completed += o.Completed
	r.Assumed += o.Assumed
	r.Violating += o.Violating
	r.Steps += o.Steps
	r.Forks += o.Forks
	r.Merges += o.Merges
	r.Asserts += o.Asserts
	r.Undecided += o.Undecided
	r.Truncated += o.Truncated
	r.MaxPathSteps = max(r.MaxPathSteps, o.MaxPathSteps)
	for k, v := range o.Unsup {
		r.Unsup[k] += v
	}
	for k, v := range o.Labels {
		r.Labels[k] += v
	}
	for k, v := range o.Reach {
		r.Reach[k] += v
	}
	for k, v := range o.VCount {
		r.VCount[k] += v
	}
	for k, v := range o.Notes {
		r.Notes[k] += v
	}
	for k, v := range o.Funcs {
		r.Funcs[k] += v
	}
	r.Viol = append(r.Viol, o.Viol...)
	if len(r.Samples) < maxSamples {
		r.Samples = append(r.Samples, o.Samples...)
	}
	r.Solver.add(&o.Solver)
}

const maxSamples = 48

type Task struct {
	job    *Job
	prefix []Dec
	hand   []uint64
}

// Sched hands tasks to workers and collects donated work.
type Sched struct {
	mu    sync.Mutex
	cond  *sync.Cond
	queue []*Task
	busy  int
	idle  int32
	done  bool
	n     int
}

func (s *Sched) put(t *Task) {
	s.mu.Lock()
	s.queue = append(s.queue, t)
	s.mu.Unlock()
	s.cond.Signal()
}

func (s *Sched) get() *Task {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if len(s.queue) > 0 {
			t := s.queue[0]
			s.queue = s.queue[1:]
			s.busy++
			return t
		}
		if s.busy == 0 {
			s.done = true
			s.cond.Broadcast()
			return nil
		}
		if s.done {
			return nil
		}
		atomic.AddInt32(&s.idle, 1)
		s.cond.Wait()
		atomic.AddInt32(&s.idle, -1)
	}
}

func (s *Sched) finish() {
	s.mu.Lock()
	s.busy--
	if s.busy == 0 && len(s.queue) == 0 {
		s.done = true
	}
	s.mu.Unlock()
	s.cond.Broadcast()
}

// ---------- machine set-up

func NewM(p *Prog) *M {
	m := &M{p: p, tt: p.tt, gen: 1}
	m.T = NewTerms()
	m.sol = NewSolver(m.T, p.solverMS)
	m.res = newResult()
	m.maxSteps = 1 << 60
	m.deadline = time.Now().Add(time.Hour)
	m.job = &Job{}
	return m
}

// resetTerms drops every term (no live symbolic state may remain).
func (m *M) resetTerms() {
	st := m.sol.st
	errs := m.sol.errs
	m.sol.Close()
	m.T = NewTerms()
	m.sol = NewSolver(m.T, m.p.solverMS)
	m.sol.st = st
	m.sol.errs = errs
	m.dom, m.coup, m.model, m.pv = nil, nil, nil, nil
	m.pc, m.domTr = nil, nil
	m.ftok = nil
}

// runConcrete calls fn to completion (used for package initialisation).
func (m *M) runConcrete(cf *CFunc, args []Value) (err error) {
	defer func() {
		if r := recover(); r != nil {
			w := m.where()
			m.stack = m.stack[:0]
			switch x := r.(type) {
			case Unsup:
				err = fmt.Errorf("unsupported: %s at %s", x.msg, w)
			case uncaught:
				err = fmt.Errorf("panic: %s at %s", x.p.msg, x.p.where)
			default:
				err = fmt.Errorf("engine: %v at %s\n%s", r, w, debug.Stack())
			}
		}
	}()
	m.pathSteps = 0
	m.call(cf, args, nil, -1)
	m.runPath()
	return nil
}

func (m *M) runTask(s *Sched, t *Task) {
	j := t.job
	m.job = j
	m.maxSteps = j.MaxSteps
	m.deadline = j.Deadline
	m.res = newResult()
	st0 := m.sol.st
	m.fnCount = m.res.Funcs
	mark := len(m.trail)
	m.gen++
	// start state
	m.trace = append([]Dec(nil), t.prefix...)
	m.tpos = 0
	m.hand = t.hand
	m.model = nil
	m.dom, m.coup, m.pv = m.dom[:0], m.coup[:0], m.pv[:0]
	m.pc, m.domTr = m.pc[:0], m.domTr[:0]
	m.inputs, m.obs, m.logs = nil, nil, nil
	m.choices = nil
	m.stack = m.stack[:0]
	m.pathSteps = 0
	m.steps, m.forks, m.merges = 0, 0, 0
	m.held = 0
	m.mon = nil
	m.call(j.Fn, nil, nil, -1)
	timeup := false
	for {
		m.donateTo = nil
		why := m.onePath(s)
		m.endPath(why)
		if why == "time" {
			timeup = true
			m.res.Truncated += int64(len(m.choices)) + 1
			break
		}
		// memory: hand everything back and start afresh
		if m.T.n > 4_000_000 && len(m.choices) > 0 {
			for len(m.choices) > 0 {
				m.donateOldest(s)
			}
		}
		if atomic.LoadInt32(&s.idle) > 0 && len(m.choices) > 0 {
			m.donateOldest(s)
		}
		if len(m.choices) == 0 {
			break
		}
		m.restore()
	}
	_ = timeup
	m.rollback(mark)
	m.choices = nil
	m.stack = m.stack[:0]
	m.mon = nil
	m.res.Steps = m.steps
	m.res.Forks = int64(m.forks)
	m.res.Merges = int64(m.merges)
	st := m.sol.st
	st.sub(&st0)
	m.res.Solver = st
	for _, e := range m.sol.errs {
		m.res.note("solver: " + e)
	}
	m.sol.errs = nil
	if m.T.n > 2_000_000 {
		m.resetTerms()
	}
	j.mu.Lock()
	j.Res.merge(m.res)
	j.end = time.Now()
	j.mu.Unlock()
}

func (m *M) donateOldest(s *Sched) {
	ch := m.choices[0]
	m.choices = m.choices[1:]
	hand := make([]uint64, len(m.pv))
	for i, v := range m.pv {
		if int(v) < len(ch.model) {
			hand[i] = ch.model[v]
		}
	}
	pre := make([]Dec, 0, ch.tpos+len(ch.dec))
	pre = append(pre, m.trace[:ch.tpos]...)
	pre = append(pre, ch.dec...)
	s.put(&Task{job: m.job, prefix: pre, hand: hand})
}

func (m *M) restore() {
	ch := m.choices[len(m.choices)-1]
	m.choices = m.choices[:len(m.choices)-1]
	m.rollback(ch.trail)
	m.gen++
	m.truncPC(ch.pcLen, ch.domLen, 0)
	m.stack = append(m.stack[:0], ch.stack...)
	m.trace = append(m.trace[:ch.tpos], ch.dec...)
	m.tpos = ch.tpos
	m.model = ch.model
	m.pv = m.pv[:ch.nvars]
	m.inputs = m.inputs[:ch.nins]
	m.obs = m.obs[:ch.nobs]
	m.logs = m.logs[:ch.nlog]
	m.pathSteps = ch.steps
	m.held = ch.held
	m.mon = ch.mon
	m.hand = nil
}

// onePath runs the current state to its end and says why it ended.
func (m *M) onePath(s *Sched) (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				why = x.why
			case Unsup:
				why = "unsup"
				m.res.Unsup[x.msg+" @ "+m.where()]++
			case mergeFail:
				why = "unsup"
				m.res.Unsup["mergeFail escaped"]++
			case uncaught:
				why = "violation"
				m.violationAt("panic: "+x.p.msg, m.model, x.p.where)
			case stepLimit:
				why = "violation"
				m.violation("nontermination: step limit", m.model)
			case timeUp:
				why = "time"
			default:
				why = "unsup"
				m.res.Unsup[fmt.Sprintf("engine: %v @ %s", r, m.where())]++
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n%s", r, m.where(), debug.Stack())
				}
			}
		}
	}()
	m.sched = s
	m.runPath()
	return "done"
}

func (m *M) endPath(why string) {
	r := m.res
	r.Paths++
	r.MaxPathSteps = max(r.MaxPathSteps, m.pathSteps)
	switch why {
	case "done":
		r.Completed++
		if m.tpos < len(m.trace) {
			r.note("replay desync: trace not consumed")
		}
		n := r.Completed
		if len(r.Samples) < maxSamples && (n <= 6 || n&(n-1) == 0 || n%257 == 0) {
			if obs, ok := m.obsVals(m.model); ok {
				r.Samples = append(r.Samples, Sample{Harness: m.job.Name, Inputs: m.inputVals(m.model), Obs: obs, Thor: m.job.Thorough})
			}
		}
		if debugPC {
			for _, c := range m.pc {
				if m.T.Eval(c, m.model) == 0 {
					r.note("model does not satisfy path: " + c.String())
				}
			}
		}
	case "assume", "range", "empty choice":
		r.Assumed++
	case "violation":
		r.Violating++
	}
}

var debugPC = os.Getenv("GOSYM_DEBUG") != ""

func (m *M) violation(label string, mod []uint64) { m.violationAt(label, mod, m.where()) }

func (m *M) violationAt(label string, mod []uint64, where string) {
	r := m.res
	r.VCount[label]++
	if r.VCount[label] > 6 {
		return
	}
	v := Violation{Harness: m.job.Name, Label: label, Inputs: m.inputVals(mod), Where: where, Thor: m.job.Thorough, Logs: append([]string(nil), m.logs...)}
	if strings.HasPrefix(label, "nontermination") {
		v.Steps = true
	}
	r.Viol = append(r.Viol, v)
}

func (a *SolverStats) sub(b *SolverStats) {
	a.Queries -= b.Queries
	a.Sat -= b.Sat
	a.Unsat -= b.Unsat
	a.Unknown -= b.Unknown
	a.Domain -= b.Domain
	a.Model -= b.Model
	a.Simplified -= b.Simplified
	a.Time -= b.Time
	a.Cross -= b.Cross
	a.CrossBad -= b.CrossBad
	a.IntQ -= b.IntQ
	a.Cached -= b.Cached
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
