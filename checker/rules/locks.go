package rules

import (
	"strings"

	"verif/checker/eng"
)

// lockOp classifies a call on a mutex: 'L','U','R','u' (RUnlock) or 0.
func lockOp(name string) byte {
	if !strings.HasPrefix(name, "sync.") {
		return 0
	}
	switch {
	case strings.HasSuffix(name, "utex.Lock"):
		return 'L'
	case strings.HasSuffix(name, "utex.Unlock"):
		return 'U'
	case strings.HasSuffix(name, "utex.RLock"):
		return 'R'
	case strings.HasSuffix(name, "utex.RUnlock"):
		return 'u'
	}
	return 0
}

// lockDisc: in every path, the events matching writes happen while the mutex matching mutex is
// held for writing, those matching reads while it is held; it is released on return and never
// taken while held.
func (f *F) lockDisc(rule string, outs []*eng.Out, mutex string, reads, writes []string) {
	f.Each(rule, outs, func(o *eng.Out) string {
		held := byte(0)
		for _, h := range f.Flat(o) {
			e := h.E
			if e.Kind == "call" && len(e.Args) > 0 {
				if op := lockOp(e.Name); op != 0 && f.m(mutex, e.Args[0]) {
					switch op {
					case 'L', 'R':
						if held != 0 {
							return "the lock is taken at " + f.pos(e.Pos) + " while it is already held"
						}
						held = op
					case 'U', 'u':
						if held == 0 || (op == 'U') != (held == 'L') {
							return "the lock is released at " + f.pos(e.Pos) + " in a way it was not taken"
						}
						held = 0
					}
					continue
				}
			}
			for _, p := range writes {
				if held != 'L' && f.evMatch(p, e, eng.Bind{}, yes) {
					return p + " at " + f.pos(e.Pos) + " happens without holding the lock for writing" + f.pathDesc(o)
				}
			}
			for _, p := range reads {
				if held == 0 && f.evMatch(p, e, eng.Bind{}, yes) {
					return p + " at " + f.pos(e.Pos) + " happens without holding the lock" + f.pathDesc(o)
				}
			}
		}
		if held != 0 && o.Kind == "return" {
			return "the lock is still held on return" + f.pathDesc(o)
		}
		return ""
	})
}

func yes(eng.Bind) bool { return true }
