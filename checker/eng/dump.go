package eng

import (
	"fmt"
	"io"
)

var Width = 300

func cut(s string) string {
	if len(s) > Width {
		return s[:Width] + "~"
	}
	return s
}

func Dump(p *Program, o *Out, w io.Writer) {
	fmt.Fprintf(w, "== %s %s\n", o.Kind, p.Pos(o.Pos))
	for i, r := range o.Res {
		fmt.Fprintf(w, "   ret%d = %s\n", i, cut(r.String()))
	}
	dumpFE(p, o.St.Facts, o.St.Events, "   ", w)
}

func dumpFE(p *Program, facts []*Term, events []*Event, ind string, w io.Writer) {
	for _, f := range facts {
		fmt.Fprintf(w, "%sfact %s\n", ind, cut(f.String()))
	}
	for _, e := range events {
		if e.Kind == "loop" {
			fmt.Fprintf(w, "%sloop%d %s\n", ind, e.Loop.ID, p.Pos(e.Pos))
			for i := range e.Loop.Phis {
				fmt.Fprintf(w, "%s  phi %s: %s init %s\n", ind, e.Loop.Names[i], cut(e.Loop.Phis[i].String()), cut(e.Loop.Init[i].String()))
			}
			for l, v := range e.Loop.MemInit {
				fmt.Fprintf(w, "%s  meminit %s = %s\n", ind, l, cut(v.String()))
			}
			for i, s := range e.Loop.Steps {
				fmt.Fprintf(w, "%s  step %d\n", ind, i)
				for j, n := range s.Next {
					fmt.Fprintf(w, "%s    next %s = %s\n", ind, e.Loop.Names[j], cut(n.String()))
				}
				for l, v := range s.Mem {
					fmt.Fprintf(w, "%s    mem %s = %s\n", ind, l, cut(v.String()))
				}
				dumpFE(p, s.Facts, s.Events, ind+"    ", w)
			}
			continue
		}
		il := ""
		if e.InLoop != nil {
			il = fmt.Sprintf(" [loop%d]", e.InLoop.ID)
		}
		fmt.Fprintf(w, "%s%s %s(%s) nf=%d %s%s\n", ind, e.Kind, e.Name, cut(join(e.Args)), e.NF, p.Pos(e.Pos), il)
		for _, cb := range e.CB {
			fmt.Fprintf(w, "%s  callback:", ind)
			Dump(p, cb, w)
		}
	}
}
