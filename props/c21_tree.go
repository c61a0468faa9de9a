package props

import (
	"fmt"
	"sort"

	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C21",
		Level: "model_checking",
		Rule: "every sequence of insert/delete/snapshot/rollback/copy over a tiny key set and up to three live trees, " +
			"from empty and pre-filled trees, compared step by step with maps; a state is the content of all live trees and all their snapshots",
		Notes: []string{"callers do not modify key or value slices after handing them over", "snapshot ids invalidated by a rollback are not used again"},
		Run:   runC21,
	})
}

type treeModel struct {
	cur   map[string]string
	snaps []treeSnapM // valid snapshots
}

type treeSnapM struct {
	id int
	m  map[string]string
}

func cpmap(m map[string]string) map[string]string {
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkTree compares one tree with a map through Get and Iterate.
func checkTree(x *mc.X, what string, t *tevm.Tree, m map[string]string, keys []string) {
	for _, k := range keys {
		got := t.Get([]byte(k))
		want, ok := m[k]
		if ok && (got == nil || string(got) != want) {
			x.Failf("tree-get", "%s: Get(%q)=%q, want %q", what, k, got, want)
		}
		if !ok && got != nil {
			x.Failf("tree-get-absent", "%s: Get(%q)=%q, want absent", what, k, got)
		}
	}
	var prev string
	n := 0
	t.Iterate(func(k, v []byte) bool {
		if n > 0 && string(k) <= prev {
			x.Failf("tree-order", "%s: iteration yields %q after %q", what, k, prev)
		}
		prev = string(k)
		if w, ok := m[string(k)]; !ok || w != string(v) {
			x.Failf("tree-iter", "%s: iteration yields %q=%q, map has %q (%v)", what, k, v, w, ok)
		}
		n++
		return n <= len(m)
	})
	if n != len(m) {
		x.Failf("tree-iter-count", "%s: iteration yields %d entries, want %d", what, n, len(m))
	}
	if n > 1 {
		// early stop
		c := 0
		t.Iterate(func(k, v []byte) bool { c++; return false })
		if c != 1 {
			x.Failf("tree-iter-stop", "%s: iteration went on after being told to stop (%d calls)", what, c)
		}
	}
}

func treeBody(keys []string, prefills [][]string, depth, maxTrees int) func(x *mc.X) {
	return func(x *mc.X) {
		trees := []*tevm.Tree{new(tevm.Tree)}
		models := []*treeModel{{cur: map[string]string{}}}
		seq := 0
		snap := func(i int) {
			id := trees[i].Snapshot()
			for _, s := range models[i].snaps {
				if s.id == id && fmt.Sprint(s.m) != fmt.Sprint(models[i].cur) {
					x.Failf("tree-snap-reused", "tree %d: snapshot number %d handed out again for a different state", i, id)
				}
			}
			models[i].snaps = append(models[i].snaps, treeSnapM{id, cpmap(models[i].cur)})
			x.Logf("t%d.Snapshot() = %d", i, id)
		}
		ins := func(i int, k string) {
			seq++
			v := fmt.Sprintf("v%d", seq)
			x.Logf("t%d.Insert(%q,%q)", i, k, v)
			trees[i].Insert([]byte(k), []byte(v))
			models[i].cur[k] = v
		}
		pf := prefills[x.Choose(len(prefills))]
		for _, k := range pf {
			if k == "SNAP" {
				snap(0)
			} else {
				ins(0, k)
			}
		}
		check := func() {
			s := ""
			for i := range trees {
				what := fmt.Sprintf("tree %d", i)
				checkTree(x, what, trees[i], models[i].cur, keys)
				s += fmt.Sprint(models[i].cur, "|")
				for _, sn := range models[i].snaps {
					c := trees[i].CopyAt(sn.id)
					checkTree(x, fmt.Sprintf("%s at snapshot %d", what, sn.id), &c, sn.m, keys)
					s += fmt.Sprint(sn.id, sn.m, "|")
				}
			}
			x.State(s)
		}
		check()
		for d := 0; d < depth; d++ {
			// alphabet: per tree: insert k, delete k, snapshot, rollback s, copy at s
			type op struct {
				kind, tree, arg int
			}
			var ops []op
			for i := range trees {
				for k := range keys {
					ops = append(ops, op{0, i, k}, op{1, i, k})
				}
				ops = append(ops, op{2, i, 0})
				for s := range models[i].snaps {
					ops = append(ops, op{3, i, s})
					if len(trees) < maxTrees {
						ops = append(ops, op{4, i, s})
					}
				}
			}
			o := ops[x.Choose(len(ops))]
			x.Step()
			t, m := trees[o.tree], models[o.tree]
			switch o.kind {
			case 0:
				ins(o.tree, keys[o.arg])
			case 1:
				k := keys[o.arg]
				got := t.Delete([]byte(k))
				x.Logf("t%d.Delete(%q) = %v", o.tree, k, got)
				_, want := m.cur[k]
				if got != want {
					x.Failf("tree-delete-result", "Delete(%q)=%v with key present=%v", k, got, want)
				}
				delete(m.cur, k)
			case 2:
				snap(o.tree)
			case 3:
				s := m.snaps[o.arg]
				x.Logf("t%d.Rollback(%d)", o.tree, s.id)
				t.Rollback(s.id)
				m.cur = cpmap(s.m)
				m.snaps = m.snaps[:o.arg+1]
			case 4:
				s := m.snaps[o.arg]
				c := t.CopyAt(s.id)
				x.Logf("t%d = t%d.CopyAt(%d)", len(trees), o.tree, s.id)
				trees = append(trees, &c)
				// the copy keeps the snapshots up to the one it was taken at
				models = append(models, &treeModel{cur: cpmap(s.m), snaps: append([]treeSnapM(nil), m.snaps[:o.arg+1]...)})
			}
			check()
		}
		x.Validated()
		if x.R.Seed >= 0 && len(trees) == maxTrees {
			x.Sample(fmt.Sprintf("%d trees, %d steps", len(trees), depth))
		}
	}
}

func runC21(r *mc.R) {
	small := []string{"b", "a", "c"}
	pre := [][]string{{}, {"b", "a", "c"}, {"a", "SNAP"}, {"b", "a", "SNAP", "c"}}
	{
		i := r.N(5, 6)
		r.Explore(mc.Opts{Name: fmt.Sprintf("small-depth%d", i), Budget: -1, Bound: fmt.Sprintf("3 keys, <=3 trees, 4 starting histories, %d operations", i)}, treeBody(small, pre, i, 3))
	}
	big := []string{"d", "b", "f", "a", "c", "e", "g"}
	bpre := [][]string{
		{"d", "b", "f", "a", "c", "e", "g"},
		{"d", "b", "f", "a", "c", "e", "g", "SNAP"},
		{"a", "b", "c", "SNAP", "g", "f", "e", "d"},
		{"d", "SNAP", "f", "b", "SNAP", "a", "g", "c", "e"},
	}
	{
		i := r.N(4, 5)
		r.Explore(mc.Opts{Name: fmt.Sprintf("big-depth%d", i), Budget: -1, Bound: fmt.Sprintf("7 keys, <=2 trees, 4 starting histories, %d operations", i)}, treeBody(big, bpre, i, 2))
	}
}
