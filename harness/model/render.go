package model

import "strings"

// Text renders the tree as the text output has to look.
func Text(ns []*Node, unit string) string {
	var s strings.Builder
	for _, n := range ns {
		render(&s, n, unit, 0)
	}
	return s.String()
}

func render(s *strings.Builder, n *Node, unit string, lvl int) {
	in := strings.Repeat(unit, lvl)
	s.WriteString(in + n.Name)
	if n.Value != "" {
		s.WriteString(": " + n.Value)
	}
	if n.Note != "" {
		s.WriteString(" (" + n.Note + ")")
	}
	s.WriteByte('\n')
	if n.Dump != "" {
		s.WriteString(in + unit + n.Dump + "\n")
	}
	for _, c := range n.Items {
		render(s, c, unit, lvl+1)
	}
}

// Diff returns a description of the first difference between two trees, or "".
func Diff(path string, want, got []*Node) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) {
			return path + ": unexpected item " + short(got[i].Name+": "+got[i].Value+" ("+got[i].Note+")")
		}
		w := want[i]
		p := path + "/" + w.Name
		if i >= len(got) {
			return p + ": item missing (value " + short(w.Value) + ", note " + short(w.Note) + ")"
		}
		g := got[i]
		switch {
		case w.Name != g.Name:
			return path + ": name is " + short(g.Name) + ", should be " + short(w.Name)
		case w.Value != g.Value:
			return p + ": value is " + short(g.Value) + ", should be " + short(w.Value)
		case w.Note != g.Note:
			return p + ": note is " + short(g.Note) + ", should be " + short(w.Note)
		case w.Dump != g.Dump:
			return p + ": dump is " + short(g.Dump) + ", should be " + short(w.Dump)
		}
		if s := Diff(p, w.Items, g.Items); s != "" {
			return s
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 160 {
		s = s[:80] + " ... " + s[len(s)-60:]
	}
	return "\"" + s + "\""
}

// Walk calls f for every node.
func Walk(ns []*Node, f func(*Node)) {
	for _, n := range ns {
		f(n)
		Walk(n.Items, f)
	}
}
