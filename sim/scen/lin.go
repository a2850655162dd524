package scen

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// LinOp is one operation of a history over one object.
type LinOp struct {
	Call, Ret int64 // Ret 1<<62 while it never returned
	Desc      string
	// Apply gives the state after the operation, and whether the observed
	// result is possible in state s.
	Apply func(s string) (string, bool)
	Maybe bool // the effect may be absent
}

// Lin records histories per object.
type Lin struct {
	mu   sync.Mutex
	t    int64
	objs map[string][]*LinOp
}

// NewLin makes an empty history.
func NewLin() *Lin { return &Lin{objs: map[string][]*LinOp{}} }

// Tick returns the next logical time.
func (l *Lin) Tick() int64 { l.mu.Lock(); defer l.mu.Unlock(); l.t++; return l.t }

// Add adds a finished operation.
func (l *Lin) Add(obj string, o *LinOp) {
	l.mu.Lock()
	l.objs[obj] = append(l.objs[obj], o)
	l.mu.Unlock()
}

// Check returns a description when an object's history is not linearizable.
func (l *Lin) Check(init func(obj string) string) string {
	var names []string
	for n := range l.objs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if m := linCheck(l.objs[n], init(n)); m != "" {
			return n + ": " + m
		}
	}
	return ""
}

func linCheck(ops []*LinOp, init string) string {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	n := len(ops)
	done := make([]bool, n)
	seen := map[string]bool{}
	steps := 0
	best, bestDone := -1, ""
	key := func(s string) string {
		var b strings.Builder
		for i := 0; i < n; i += 8 {
			var x byte
			for j := i; j < i+8 && j < n; j++ {
				if done[j] {
					x |= 1 << (j - i)
				}
			}
			b.WriteByte(x)
		}
		b.WriteString(s)
		return b.String()
	}
	var rec func(s string, left int) bool
	rec = func(s string, left int) bool {
		if left == 0 {
			return true
		}
		steps++
		if steps > 2_000_000 {
			return true // give up quietly: no verdict for this history
		}
		k := key(s)
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int64(1) << 62
		onlyMaybe := true
		for i, o := range ops {
			if !done[i] {
				if o.Ret < minRet {
					minRet = o.Ret
				}
				if !o.Maybe {
					onlyMaybe = false
				}
			}
		}
		if onlyMaybe {
			return true
		}
		if d := n - left; d > best {
			best = d
			var l []string
			for i, o := range ops {
				if !done[i] && o.Call <= minRet {
					l = append(l, o.Desc)
				}
			}
			bestDone = fmt.Sprintf("after %d of %d operations the state is %s and none of [%s] can be next", d, n, s, strings.Join(l, "; "))
		}
		for i, o := range ops {
			if done[i] || o.Call > minRet {
				continue
			}
			done[i] = true
			if s2, ok := o.Apply(s); ok && rec(s2, left-1) {
				return true
			}
			if o.Maybe && rec(s, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	if rec(init, n) {
		return ""
	}
	return bestDone
}
