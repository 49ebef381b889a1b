// Package npa explores the product automaton of a set of metadata regular
// expressions over the ten decimal digits ("numbering-plan automaton").
//
// Every regular expression of a plan is compiled with regexp/syntax to an NFA
// program; a product state is the tuple of reachable NFA instruction sets after
// consuming a digit string. Two digit strings of the same length that reach the
// same product state are indistinguishable to every regular expression of the
// plan (now and after any common suffix), so one representative per reachable
// state covers all of them.
package npa

import (
	"regexp/syntax"
	"sort"
)

type prog struct {
	p    *syntax.Prog
	look bool // lookingAt semantics: a match is sticky
}

// Automaton is the product of several regular expressions.
type Automaton struct {
	progs []prog
	seen  map[string]bool
}

// New returns an empty automaton.
func New() *Automaton { return &Automaton{seen: map[string]bool{}} }

// Add adds a pattern. If look is true the pattern is matched as a prefix
// (lookingAt), otherwise against the whole string.
func (a *Automaton) Add(pattern string, look bool) {
	key := pattern
	if look {
		key = "^" + pattern
	}
	if pattern == "" || a.seen[key] {
		return
	}
	a.seen[key] = true
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return
	}
	a.progs = append(a.progs, prog{p, look})
}

// Len is the number of distinct patterns.
func (a *Automaton) Len() int { return len(a.progs) }

const sticky = 0xfffe
const dead = 0xffff

// State is one product state.
type State struct {
	Access string // a shortest digit string reaching it
	Len    int
	key    string
	sets   [][]uint16
}

func closure(p *syntax.Prog, in []uint32, first bool) []uint16 {
	seen := map[uint32]bool{}
	var out []uint16
	var add func(pc uint32)
	add = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := &p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(i.Out)
			add(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(i.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && !first {
				return
			}
			if syntax.EmptyOp(i.Arg)&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 {
				out = append(out, uint16(pc))
				return
			}
			add(i.Out)
		case syntax.InstFail:
		default:
			out = append(out, uint16(pc))
		}
	}
	for _, pc := range in {
		add(pc)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func hasMatch(p *syntax.Prog, s []uint16) bool {
	for _, pc := range s {
		if p.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}

func (a *Automaton) start() *State {
	st := &State{}
	for _, pr := range a.progs {
		s := closure(pr.p, []uint32{uint32(pr.p.Start)}, true)
		if pr.look && hasMatch(pr.p, s) {
			s = []uint16{sticky}
		}
		st.sets = append(st.sets, s)
	}
	st.setKey()
	return st
}

func (s *State) setKey() {
	b := make([]byte, 0, 64)
	b = append(b, byte(s.Len))
	for _, set := range s.sets {
		for _, x := range set {
			b = append(b, byte(x>>8), byte(x))
		}
		b = append(b, 0xff, 0xff)
	}
	s.key = string(b)
}

func (a *Automaton) step(s *State, d byte) *State {
	n := &State{Len: s.Len + 1, Access: s.Access + string(d)}
	n.sets = make([][]uint16, len(a.progs))
	for k, pr := range a.progs {
		cur := s.sets[k]
		if len(cur) == 1 && cur[0] == sticky {
			n.sets[k] = cur
			continue
		}
		var next []uint32
		for _, pc := range cur {
			i := &pr.p.Inst[pc]
			switch i.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if i.MatchRune(rune(d)) {
					next = append(next, i.Out)
				}
			}
		}
		if len(next) == 0 {
			continue
		}
		c := closure(pr.p, next, false)
		if pr.look && hasMatch(pr.p, c) {
			c = []uint16{sticky}
		}
		n.sets[k] = c
	}
	n.setKey()
	return n
}

// Dead reports whether no pattern can distinguish any extension of s any more.
func (s *State) Dead() bool {
	for _, set := range s.sets {
		if len(set) != 0 && !(len(set) == 1 && set[0] == sticky) {
			return false
		}
	}
	return true
}

// Result of an exploration.
type Result struct {
	States      []*State
	Transitions int
	// TransAccess holds one access string per explored (state, successor) edge
	// that is not the tree edge of its target.
	TransAccess []string
	Truncated   bool
}

// Explore enumerates all product states reachable with at most maxLen digits,
// breadth first, up to maxStates.
func (a *Automaton) Explore(maxLen, maxStates int) *Result {
	r := &Result{}
	s0 := a.start()
	seen := map[string]bool{s0.key: true}
	r.States = append(r.States, s0)
	for q := 0; q < len(r.States); q++ {
		s := r.States[q]
		if s.Len >= maxLen {
			continue
		}
		succ := map[string]bool{}
		for j := 0; j < 10; j++ {
			// vary the digit tried first with the position, so that
			// representatives do not consist of one repeated digit
			d := byte('0' + (j+3*s.Len+1)%10)
			n := a.step(s, d)
			if succ[n.key] {
				continue
			}
			succ[n.key] = true
			r.Transitions++
			if seen[n.key] {
				r.TransAccess = append(r.TransAccess, n.Access)
				continue
			}
			if len(r.States) >= maxStates {
				r.Truncated = true
				continue
			}
			seen[n.key] = true
			r.States = append(r.States, n)
		}
	}
	return r
}
