package main

import "fmt"

// Fields are known by their names and by nothing else: half of the random
// documents get other names than the generators use.

var nameFamilies = [][]string{
	{"amount", "Amount", "AMOUNT", "aMount", "amounT", "AmounT", "amOunt", "AMount"},
	{"a", "ab", "abc", "b", "bc", "ba", "aa", "bb"},
	{"v", "v ", " v", "v v", "vv", "v  v", "v.v", "v:v"},
	{"größe", "grosse", "größe2", "gr\u00f6ße", "速度", "σ", "ς", "Σ"},
	{"1", "01", "1.0", "true", "null", "NaN", "-", "0"},
	{"a&b", "<a>", `"a"`, "a'b", "a(b)", "probability", "data:a", "a/b"},
	{"class", "Score", "value", "field", "True", "Target", "x-1", "_"},
}

func (g *G) rename(c *Case) {
	to := map[string]string{}
	used := map[string]bool{}
	fam := nameFamilies[g.n(len(nameFamilies))]
	if g.lits != nil && len(g.lits.strs) > 0 && g.p(0.5) {
		fam = []string{"x", "y"}
		for k := 0; k < 8; k++ {
			if s, ok := g.dictStr(); ok && s != "" {
				fam = append(fam, s)
			}
		}
	}
	give := func(old string) {
		if _, ok := to[old]; ok {
			return
		}
		name := fam[g.n(len(fam))]
		for used[name] {
			name += g.pick("1", "2", "3", "0", "_")
		}
		used[name] = true
		to[old] = name
	}
	for _, f := range c.Doc.DD {
		give(f.Name)
	}
	for _, f := range c.Doc.TD {
		give(f.Name)
	}
	for _, m := range modelsOf(&c.Doc.Model) {
		for _, f := range m.LT {
			give(f.Name)
		}
	}
	name := func(s *string) {
		if n, ok := to[*s]; ok {
			*s = n
		}
	}
	fields := func(dfs []DField) {
		for i := range dfs {
			name(&dfs[i].Name)
			for _, x := range exprsOf(&dfs[i].Expr) {
				name(&x.F)
				for k := range x.Pairs {
					name(&x.Pairs[k].F)
				}
			}
		}
	}
	preds := func(p *Pred) {
		for _, q := range predsOf(p) {
			name(&q.F)
		}
	}
	for i := range c.Doc.DD {
		name(&c.Doc.DD[i].Name)
	}
	fields(c.Doc.TD)
	for _, m := range modelsOf(&c.Doc.Model) {
		for i := range m.Schema {
			name(&m.Schema[i].Name)
		}
		fields(m.LT)
		if m.Root != nil {
			for _, n := range nodesOf(m.Root) {
				preds(&n.Pred)
			}
			g.renameNodes(m.Root)
		}
		for i := range m.Tables {
			for k := range m.Tables[i].Nums {
				name(&m.Tables[i].Nums[k].Name)
			}
			for k := range m.Tables[i].Cats {
				name(&m.Tables[i].Cats[k].Name)
			}
		}
		for i := range m.Outs {
			name(&m.Outs[i].Name)
		}
		for i := range m.Targets {
			name(&m.Targets[i].Field)
		}
		ids := g.n(6)
		for i := range m.Segs {
			switch ids {
			case 0:
				m.Segs[i].ID = ""
			case 1:
				m.Segs[i].ID = "1"
			case 2:
				m.Segs[i].ID = fmt.Sprint(len(m.Segs) - i)
			case 3:
				m.Segs[i].ID = g.pick("", "1", "01", "s", "S")
			}
			for k := range m.Segs[i].Preds {
				preds(&m.Segs[i].Preds[k])
			}
		}
	}
	for i, r := range c.Rows {
		row := Row{}
		for k, v := range r {
			name(&k)
			row[k] = v
		}
		c.Rows[i] = row
	}
}

// column names the column of a field; field names need not be element names.
func column(i int, f string) string {
	for _, r := range f {
		if !(r >= 'a' && r <= 'z') {
			return fmt.Sprintf("c%d", i)
		}
	}
	return f
}

// renameNodes gives the nodes of a tree other identifiers.
func (g *G) renameNodes(root *Node) {
	to := map[string]string{}
	mode := g.n(5)
	pre, _ := g.dictStr()
	for i, n := range nodesOf(root) {
		switch mode {
		case 1:
			to[n.ID] = fmt.Sprintf("%c", 'A'+rune(i%2)*32+rune(i/2%26)) + fmt.Sprint(i/52) // a and A are different
		case 2:
			to[n.ID] = fmt.Sprint(i) // 0, 1...
		case 3:
			to[n.ID] = fmt.Sprintf("%*s", i+1, "n") // n, " n"...
		case 4:
			to[n.ID] = pre + fmt.Sprint(i)
			if i == 1 && pre != "" {
				to[n.ID] = pre
			}
		}
	}
	for _, n := range nodesOf(root) {
		if id, ok := to[n.DC]; ok {
			n.DC = id
		}
		if id, ok := to[n.ID]; ok {
			n.ID = id
		}
	}
}
