package merkle

import (
	"bytes"
	"crypto/sha3"
	"errors"
	"fmt"
	mrand "math/rand/v2"
	"runtime"
	"sync"
	"testing"

	"github.com/dusk-network/dusk-crypto/merkletree"
	"verif/harness/hx"
)

// ---------------------------------------------------------------- C22

func TestC22_ShapeAndRoot(t *testing.T) {
	hx.Check(t, hx.N{Quick: 30000, Thorough: 200000},
		"payload lists of 1..140 (around powers of two in particular) whose hashes have 32 or 9..78 bytes and live in own, shared or over-allocated memory; tree compared node by node with a reference; non-trivial: two or more payloads, counted once per list",
		func(c *hx.C) {
			w := newWorld(c)
			w.wide = c.Bool("wide")
			n := drawSize(c, "n")
			pl := w.list(n)
			if n > 1 && c.Chance(4, "equal payloads") { // the same payload several times
				i, j := c.Pick(n, "i"), c.Pick(n, "j")
				pl[i] = pl[j]
				c.Label("repeated payload")
			}
			mem := memory(pl)
			tree, err := merkletree.NewTree(pl)
			c.Must(err, "NewTree")
			if s := checkTree(tree, pl); s != "" {
				c.Fatalf("tree over %d payloads: %s", n, s)
			}
			if !sameMemory(mem, memory(pl)) {
				c.Fatalf("building changed memory of the payloads")
			}
			// node hashes as reported by the helpers
			lv := levels(pl)
			node, level, idx := tree.Root, len(lv)-1, 0
			for {
				for name, f := range map[string]func(*merkletree.Node) ([]byte, error){"VerifyNode": merkletree.VerifyNode, "CalculateNodeHash": merkletree.CalculateNodeHash} {
					h, err := f(node)
					c.Must(err, name)
					if !bytes.Equal(h, lv[level][idx]) {
						c.Fatalf("%s of node %d at height %d", name, idx, level)
					}
				}
				if level == 0 {
					break
				}
				if c.Bool("right") {
					node = node.Right
					idx = min(2*idx+1, len(lv[level-1])-1)
				} else {
					node = node.Left
					idx = 2 * idx
				}
				level--
			}
			if n > 1 {
				c.NT(n, hx.Short(tree.MerkleRoot))
			}
			c.Note("%d payloads, root %s", n, hx.Short(tree.MerkleRoot))
		})
}

func TestC22_EverySequenceItsOwnRoot(t *testing.T) {
	hx.Check(t, hx.N{Quick: 30000, Thorough: 200000},
		"a list of 1..140 different payloads with SHA3 hashes and a second list obtained by changing, swapping, moving, inserting, removing, appending, truncating or reversing; non-trivial: the lists differ",
		func(c *hx.C) {
			w := newWorld(c)
			mk := func() merkletree.Payload {
				p := w.fresh()
				h := sha3.Sum256(base(p).out)
				copy(base(p).out, h[:])
				return p
			}
			n := drawSize(c, "n")
			a := make([]merkletree.Payload, n)
			for i := range a {
				a[i] = mk()
			}
			b := append([]merkletree.Payload(nil), a...)
			i, j := c.Pick(n, "i"), c.Pick(n, "j")
			op := Op(c.Pick(8, "op"))
			switch op {
			case 0:
				b[i] = mk()
			case 1:
				b[i], b[j] = b[j], b[i]
			case 2:
				b = append(b[:i:i], append([]merkletree.Payload{mk()}, b[i:]...)...)
			case 3:
				b = append(b[:i:i], b[i+1:]...)
			case 4:
				b = append(b, mk())
			case 5:
				b = b[:c.Int(0, n, "len")]
			case 6:
				for l, r := 0, len(b)-1; l < r; l, r = l+1, r-1 {
					b[l], b[r] = b[r], b[l]
				}
			case 7:
				x := b[i]
				b = append(b[:i:i], b[i+1:]...)
				b = append(b[:j:j], append([]merkletree.Payload{x}, b[j:]...)...)
			}
			ta, err := merkletree.NewTree(a)
			c.Must(err, "NewTree")
			if len(b) == 0 {
				if tb, err := merkletree.NewTree(b); err == nil || tb != nil {
					c.Fatalf("a tree without payloads was built")
				}
				return
			}
			tb, err := merkletree.NewTree(b)
			c.Must(err, "NewTree")
			same := sameList(a, b)
			if bytes.Equal(ta.MerkleRoot, tb.MerkleRoot) != same {
				c.Fatalf("op %d on %d payloads at %d,%d: roots equal is %v, lists equal is %v", op, n, i, j, !same, same)
			}
			c.Label(fmt.Sprint("op", op))
			if !same {
				c.NT(op, n, i, j)
			}
			c.Note("op %d on %d payloads at %d,%d", op, n, i, j)
		})
}

type Op int

func TestC22_Refusals(t *testing.T) {
	hx.Check(t, hx.N{Quick: 15000, Thorough: 60000},
		"lists of 0..40 payloads with one or more that fail to hash at any position; non-trivial: a payload fails, counted per length and position",
		func(c *hx.C) {
			w := newWorld(c)
			n := c.Int(0, 40, "n")
			pl := w.list(n)
			if n == 0 {
				for _, l := range [][]merkletree.Payload{nil, pl} {
					if tr, err := merkletree.NewTree(l); err == nil || tr != nil {
						c.Fatalf("a tree without payloads was built")
					}
				}
				return
			}
			bad := c.Pick(n, "bad")
			base(pl[bad]).failAt = 1
			if c.Bool("two") {
				base(pl[c.Pick(n, "bad2")]).failAt = 1
			}
			tr, err := merkletree.NewTree(pl)
			if err == nil || tr != nil {
				c.Fatalf("a tree was built although payload %d of %d cannot be hashed", bad, n)
			}
			c.NT(n, bad)
			c.Note("payload %d of %d fails", bad, n)
		})
}

// ---------------------------------------------------------------- C23

func TestC23_IntactTree(t *testing.T) {
	hx.Check(t, hx.N{Quick: 25000, Thorough: 150000},
		"intact trees of 1..140 payloads queried with members, equal-hashing other payloads, strangers, hashes of inner nodes and prefixes of member hashes; non-trivial: at least one member and one stranger queried",
		func(c *hx.C) {
			w := newWorld(c)
			w.wide = c.Bool("wide")
			n := drawSize(c, "n")
			pl := w.list(n)
			tree, err := merkletree.NewTree(pl)
			c.Must(err, "NewTree")
			if c.Bool("rebuilt") {
				c.Must(tree.RebuildTree(), "RebuildTree")
			}
			s := snap(tree)
			mem := memory(pl)
			ok, err := merkletree.VerifyTree(tree)
			c.Must(err, "VerifyTree")
			if !ok {
				c.Fatalf("VerifyTree is false for an intact tree of %d payloads", n)
			}
			queries := c.Int(2, 8, "queries")
			nm, ns := 0, 0
			for q := 0; q < queries; q++ {
				i := c.Pick(n, "i")
				var p merkletree.Payload
				want := true
				kind := c.Pick(7, "query")
				switch kind {
				case 0, 1:
					p = pl[i]
				case 2: // another object that hashes alike
					p = &payload{out: append([]byte(nil), hashOf(pl[i])...)}
				case 3:
					p, want = w.fresh(), false
				case 4:
					h := append([]byte(nil), hashOf(pl[i])...)
					h[c.Pick(len(h), "byte")] ^= 1 << c.Pick(8, "bit")
					p, want = &payload{out: h}, false
				case 5:
					h := hashOf(pl[i])
					p, want = &payload{out: append([]byte(nil), h[:c.Pick(len(h), "cut")]...)}, false
				case 6: // an inner hash is no member
					lv := levels(pl)
					l := c.Int(1, len(lv)-1, "level")
					p, want = &payload{out: lv[l][c.Pick(len(lv[l]), "inner")]}, false
				}
				if want == false { // may hit a member after all (bit flip of the running number)
					for _, m := range pl {
						if bytes.Equal(hashOf(m), hashOf(p)) {
							want = true
						}
					}
				}
				if want {
					nm++
				} else {
					ns++
				}
				got, err := tree.VerifyContent(p)
				c.Must(err, "VerifyContent")
				if got != want {
					c.Fatalf("VerifyContent (query kind %d, payload %d of %d) is %v", kind, i, n, got)
				}
			}
			if d := s.diff(); d != "" {
				c.Fatalf("verification changed the tree: %s", d)
			}
			if !sameMemory(mem, memory(pl)) {
				c.Fatalf("verification changed memory of the payloads")
			}
			if nm > 0 && ns > 0 {
				c.NT(n, hx.Short(tree.MerkleRoot))
			}
			c.Note("%d payloads, %d member and %d stranger queries", n, nm, ns)
		})
}

func TestC23_AlteredTree(t *testing.T) {
	hx.Check(t, hx.N{Quick: 60000, Thorough: 400000},
		"trees of 1..140 different payloads with one thing altered: a leaf's data (replaced, changed in place, failing), its duplicate, the reported root, the hash of a node on the path; non-trivial: every case, counted per kind, size and position",
		func(c *hx.C) {
			w := newWorld(c)
			w.wide = c.Bool("wide")
			n := drawSize(c, "n")
			pl := w.list(n)
			tree, err := merkletree.NewTree(pl)
			c.Must(err, "NewTree")
			if c.Chance(3, "rebuilt") {
				c.Must(tree.RebuildTree(), "RebuildTree")
			}
			nl := len(tree.Leaves)
			i := c.Pick(nl, "leaf")
			if c.Chance(3, "last") { // where the duplicate is
				i = nl - 1 - c.Pick(min(2, nl), "fromlast")
			}
			sib := i ^ 1
			orig := func(k int) merkletree.Payload { // payload of leaf k as built
				if k >= n {
					k = n - 1
				}
				return pl[k]
			}
			flip := func(b []byte) []byte {
				r := append([]byte(nil), b...)
				if len(r) == 0 {
					return []byte{1}
				}
				switch c.Pick(4, "alter") {
				case 0:
					return r[:len(r)-1]
				case 1:
					return append(r, 0)
				default:
					r[c.Pick(len(r), "byte")] ^= 1 << c.Pick(8, "bit")
					return r
				}
			}
			member := func(p merkletree.Payload, what string, want bool) {
				got, err := tree.VerifyContent(p)
				c.Must(err, "VerifyContent")
				if got != want {
					c.Fatalf("%s: VerifyContent of leaf %d (of %d payloads) is %v", what, i, n, got)
				}
			}
			whole := func(what string, want bool) {
				ok, err := merkletree.VerifyTree(tree)
				c.Must(err, "VerifyTree")
				if ok != want {
					c.Fatalf("%s (leaf %d of %d payloads): VerifyTree is %v", what, i, n, ok)
				}
			}
			kind := c.Pick(6, "kind")
			names := []string{"data replaced", "data changed in place", "reported root", "path hash", "failing data", "failing query"}
			switch kind {
			case 0:
				old := tree.Leaves[i].Data
				var np merkletree.Payload
				switch c.Pick(3, "with") {
				case 0:
					np = w.fresh()
				case 1:
					np = &payload{out: flip(hashOf(old))}
				default:
					if n == 1 {
						np = w.fresh()
					} else {
						np = orig((i + 1 + c.Pick(n-1, "other")) % n)
						if base(np) == base(old) {
							np = w.fresh()
						}
					}
				}
				for _, m := range pl { // keep hashes distinct
					if bytes.Equal(hashOf(m), hashOf(np)) && base(m) != base(np) {
						np = w.fresh()
					}
				}
				tree.Leaves[i].Data = np
				s := snap(tree)
				whole("data of a leaf replaced", false)
				// the former payload: its leaf is gone; if its duplicate remains, that one's sibling is altered
				member(old, "data of its own leaf replaced", false)
				foreign := true
				for _, m := range pl {
					foreign = foreign && base(m) != base(np)
				}
				if foreign {
					member(np, "payload put into a leaf afterwards", false)
				}
				if base(orig(sib)) != base(old) {
					member(orig(sib), "data of its sibling replaced", false)
				}
				if d := s.diff(); d != "" {
					c.Fatalf("verification changed the tree: %s", d)
				}
				tree.Leaves[i].Data = old
				whole("data restored", true)
				member(old, "data restored", true)
			case 1:
				p := base(tree.Leaves[i].Data)
				old := p.out
				q := &payload{out: append([]byte(nil), old...)}
				p.out = flip(old)
				for k, m := range pl {
					if base(m) != p && bytes.Equal(hashOf(m), p.out) {
						_ = k
						p.out = append([]byte("unlike any other"), p.out...)
					}
				}
				whole("payload changed in place", false)
				member(p, "changed payload", false)
				member(q, "former payload", false)
				if base(orig(sib)) != p {
					member(orig(sib), "sibling changed in place", false)
				}
			case 2:
				keep := tree.MerkleRoot
				if c.Chance(4, "nil") {
					tree.MerkleRoot = nil
				} else {
					tree.MerkleRoot = flip(keep)
				}
				whole("reported root altered", false)
				tree.MerkleRoot = append([]byte(nil), keep...)
				whole("reported root restored", true)
			case 3:
				var path []*merkletree.Node
				for p := tree.Leaves[i].Parent; p != nil; p = p.Parent {
					path = append(path, p)
				}
				k := c.Pick(len(path), "height")
				nd := path[k]
				keep := nd.Hash
				nd.Hash = flip(keep)
				member(orig(i), fmt.Sprintf("hash at height %d of its path altered", k+1), false)
				nd.Hash = keep
				member(orig(i), "hash restored", true)
				c.Label(fmt.Sprint("height", k+1))
			case 4:
				p := base(tree.Leaves[i].Data)
				p.failAt = p.calls + 1
				if ok, err := merkletree.VerifyTree(tree); err == nil || ok {
					c.Fatalf("VerifyTree with a payload that cannot be hashed: %v, %v", ok, err)
				}
				q := orig(sib)
				if base(q) != p {
					if ok, err := tree.VerifyContent(q); err == nil || ok {
						c.Fatalf("VerifyContent with a sibling that cannot be hashed: %v, %v", ok, err)
					}
				}
				if ok, err := tree.VerifyContent(p); err == nil || ok {
					c.Fatalf("VerifyContent of a payload that cannot be hashed: %v, %v", ok, err)
				}
				if _, err := merkletree.VerifyNode(tree.Root); err == nil {
					c.Fatalf("VerifyNode hides the error")
				}
				if _, err := merkletree.CalculateNodeHash(tree.Leaves[i]); err == nil {
					c.Fatalf("CalculateNodeHash hides the error")
				}
				// failing from a later call on: whichever call fails is reported
				for later := 1; later <= 3; later++ {
					for k, h := range [][]byte{hashOf(orig(i)), hashOf(orig(sib)), flip(hashOf(orig(i)))} {
						p.failAt, p.failed = p.calls+later, 0
						ok, err := tree.VerifyContent(&payload{out: append([]byte(nil), h...)})
						if (p.failed > 0) != (err != nil) || ok && err != nil {
							c.Fatalf("VerifyContent (query %d) with a payload whose hashing fails from call %d on (%d failures): %v, %v", k, later, p.failed, ok, err)
						}
					}
					p.failAt, p.failed = p.calls+later, 0
					if ok, err := merkletree.VerifyTree(tree); (p.failed > 0) != (err != nil) || ok != (err == nil) {
						c.Fatalf("VerifyTree with a payload whose hashing fails from call %d on (%d failures): %v, %v", later, p.failed, ok, err)
					}
				}
			case 5:
				q := &payload{out: append([]byte(nil), hashOf(orig(i))...), failAt: 1}
				if ok, err := tree.VerifyContent(q); err == nil || ok {
					c.Fatalf("VerifyContent of a query that cannot be hashed: %v, %v", ok, err)
				}
				whole("after a failing query", true)
			}
			c.Label(names[kind])
			c.NT(kind, n, i)
			c.Note("%s, leaf %d of %d payloads", names[kind], i, n)
		})
}

// ---------------------------------------------------------------- C24

func TestC24_Histories(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 120000},
		"histories of 2..12 operations on one tree: rebuild, rebuild with new payloads (fitting, hashing like the ones before, empty, failing at any position), changing a payload or a leaf before rebuilding, verifying; after each the tree is compared with one built afresh from the model's payload list and all memory of payloads and callers with a copy; non-trivial: at least two rebuilds, counted per history",
		func(c *hx.C) {
			w := newWorld(c)
			w.wide = c.Bool("wide")
			pl := w.list(drawSize(c, "n"))
			all := [][]merkletree.Payload{pl}
			lists := [][]merkletree.Payload{append([]merkletree.Payload(nil), pl[:cap(pl)]...)}
			tree, err := merkletree.NewTree(pl)
			c.Must(err, "NewTree")
			model := append([]merkletree.Payload(nil), pl...)
			mem := memory(all...)
			ops := c.Int(2, 12, "ops")
			rebuilds := 0
			hist := fmt.Sprint("new ", len(pl))
			for o := 0; o < ops; o++ {
				op := c.Pick(9, "op")
				var old merkletree.Tree // a copy of the tree taken before a rebuild
				var kept *snapshot
				keep := func() {
					old = *tree
					kept = snap(&old)
				}
				switch op {
				case 0, 1:
					keep()
					c.Must(tree.RebuildTree(), "RebuildTree")
					rebuilds++
					hist += ", rebuild"
				case 2, 3:
					npl := w.list(drawSize(c, "n"))
					if c.Bool("subset") && len(model) > 0 { // reuse payloads of the tree, e.g. grow or shrink
						npl = append(npl[:0], model...)
						if c.Bool("grow") {
							npl = append(npl, w.fresh())
						} else if len(npl) > 1 {
							npl = npl[:len(npl)-1]
						}
						for x, rest := len(npl), npl[:cap(npl)]; x < len(rest); x++ {
							rest[x] = w.fresh()
						}
					}
					if c.Pick(4, "twins") == 0 { // the same hashes from other payloads: all, or some of them
						npl = append(npl[:0], model...)
						every := c.Bool("every")
						one := c.Pick(len(npl), "twin")
						for x := range npl {
							if every || x == one {
								npl[x] = w.twin(npl[x])
							}
						}
						for x, rest := len(npl), npl[:cap(npl)]; x < len(rest); x++ {
							rest[x] = w.fresh()
						}
					}
					all = append(all, npl)
					lists = append(lists, append([]merkletree.Payload(nil), npl[:cap(npl)]...))
					mem = append(mem, memory(npl)...)
					keep()
					c.Must(tree.RebuildTreeUsing(npl), "RebuildTreeUsing")
					model = append([]merkletree.Payload(nil), npl...)
					rebuilds++
					hist += fmt.Sprint(", using ", len(npl))
				case 4: // fails
					npl := w.list(c.Int(0, 12, "n"))
					if len(npl) > 0 {
						base(npl[c.Pick(len(npl), "bad")]).failAt = 1
					} else if c.Bool("nil") {
						npl = nil
					}
					s := snap(tree)
					if err := tree.RebuildTreeUsing(npl); err == nil {
						c.Fatalf("%s: rebuild without payloads or with one that cannot be hashed succeeded", hist)
					}
					if d := s.diff(); d != "" {
						c.Fatalf("%s: failed rebuild changed the tree: %s", hist, d)
					}
					hist += ", failing using"
				case 5: // the tree's own payload fails
					i := c.Pick(len(model), "bad")
					p := base(model[i])
					p.failAt = p.calls + 1
					s := snap(tree)
					if err := tree.RebuildTree(); err == nil {
						c.Fatalf("%s: rebuild with a payload that cannot be hashed succeeded", hist)
					}
					if d := s.diff(); d != "" {
						c.Fatalf("%s: failed rebuild changed the tree: %s", hist, d)
					}
					p.failAt = 0
					hist += ", failing rebuild"
				case 6: // data replaced, then rebuilt
					i := c.Pick(len(model), "i")
					np := w.fresh()
					tree.Leaves[i].Data = np
					model[i] = np
					keep()
					c.Must(tree.RebuildTree(), "RebuildTree")
					rebuilds++
					hist += ", change+rebuild"
				case 7:
					s := snap(tree)
					if ok, err := merkletree.VerifyTree(tree); !ok || err != nil {
						c.Fatalf("%s: VerifyTree: %v %v", hist, ok, err)
					}
					if ok, err := tree.VerifyContent(model[c.Pick(len(model), "i")]); !ok || err != nil {
						c.Fatalf("%s: VerifyContent: %v %v", hist, ok, err)
					}
					if d := s.diff(); d != "" {
						c.Fatalf("%s: verifying changed the tree: %s", hist, d)
					}
					hist += ", verify"
				case 8: // the caller reuses its list; the tree keeps its own
					l := all[c.Pick(len(all), "list")]
					if len(l) > 0 {
						k := c.Pick(len(l), "slot")
						l[k] = w.fresh()
						for x := range all {
							if len(all[x]) > 0 && len(l) > 0 && &all[x][0] == &l[0] {
								lists[x][k] = l[k]
							}
						}
						mem = memory(all...)
					}
					hist += ", caller changes its list"
				}
				if s := checkTree(tree, model); s != "" {
					c.Fatalf("%s: %s", hist, s)
				}
				if kept != nil {
					if d := kept.diff(); d != "" {
						c.Fatalf("%s: the copy of the tree taken before was changed: %s", hist, d)
					}
				}
				if !sameMemory(mem, memory(all...)) {
					c.Fatalf("%s: memory of a payload changed", hist)
				}
				for x := range all {
					if !sameList(all[x][:cap(all[x])], lists[x]) {
						c.Fatalf("%s: the caller's list changed", hist)
					}
				}
			}
			if rebuilds >= 2 {
				c.NT(hist)
			}
			c.Note("%s", hist)
		})
}

// ---------------------------------------------------------------- at the same time

type plain string

func (p plain) CalculateHash() ([]byte, error) {
	if mrand.IntN(16) == 0 {
		runtime.Gosched() // let the others go on
	}
	h := sha3.Sum256([]byte(p))
	return h[:], nil
}

func plainRoot(l []plain) []byte {
	var cur [][]byte
	for _, p := range l {
		h, _ := p.CalculateHash()
		cur = append(cur, h)
	}
	for first := true; first || len(cur) > 1; first = false {
		var next [][]byte
		for i := 0; i < len(cur); i += 2 {
			next = append(next, h2(cur[i], cur[min(i+1, len(cur)-1)]))
		}
		cur = next
	}
	return cur[0]
}

func TestC22_InnerNodes(t *testing.T) {
	hx.Check(t, hx.N{Quick: 400, Thorough: 4000},
		"a list of 3..40 payloads hashed with SHA3-256 and the shorter list whose payloads are the contents of the inner nodes at a drawn height of the first tree; known finding C22-inner-node-as-payload; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(3, 40, "n")
			a := make([]plain, n)
			for i := range a {
				a[i] = plain(fmt.Sprint(i, " ", string(c.Bytes(9))))
			}
			cur, height := a, 0
			for height == 0 || len(cur) > 3 && c.Bool("higher") {
				var next []plain
				for i := 0; i < len(cur); i += 2 {
					l, _ := cur[i].CalculateHash()
					r, _ := cur[min(i+1, len(cur)-1)].CalculateHash()
					next = append(next, plain(string(l)+string(r)))
				}
				cur = next
				height++
			}
			if len(cur) < 2 {
				return
			}
			root := func(l []plain) []byte {
				var pl []merkletree.Payload
				for _, p := range l {
					pl = append(pl, p)
				}
				tr, err := merkletree.NewTree(pl)
				c.Must(err, "NewTree")
				return tr.MerkleRoot
			}
			if bytes.Equal(root(a), root(cur)) {
				c.Known("C22-inner-node-as-payload", "%d payloads and the %d payloads that are the contents of its inner nodes at height %d have the same root", n, len(cur), height)
			}
			c.NT(n, height)
			c.Note("%d payloads, height %d", n, height)
		})
}

func TestC22_Concurrent(t *testing.T) {
	hx.Check(t, hx.N{Quick: 400, Thorough: 10000},
		"2..8 goroutines build, rebuild and verify trees of their own at the same time, and verify one shared tree; roots compared with the reference (second run with the race detector); non-trivial: all",
		func(c *hx.C) {
			n := c.Int(2, 8, "goroutines")
			mk := func() (l []plain, pl []merkletree.Payload) {
				for i := c.Int(1, 40, "n"); i > 0; i-- {
					p := plain(c.Bytes(20))
					l, pl = append(l, p), append(pl, p)
				}
				return
			}
			sl, spl := mk()
			shared, err := merkletree.NewTree(spl)
			c.Must(err, "NewTree")
			type job struct {
				a, b   []plain
				pa, pb []merkletree.Payload
			}
			jobs := make([]job, n)
			for i := range jobs {
				jobs[i].a, jobs[i].pa = mk()
				jobs[i].b, jobs[i].pb = mk()
			}
			errs := make([]error, n)
			var wg sync.WaitGroup
			for i := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					j := jobs[i]
					var bad string
					if err := hx.NoPanic(func() {
						tr, err := merkletree.NewTree(j.pa)
						if err != nil || !bytes.Equal(tr.MerkleRoot, plainRoot(j.a)) {
							bad = "built tree is wrong"
							return
						}
						if ok, err := merkletree.VerifyTree(tr); !ok || err != nil {
							bad = "built tree is refused"
						}
						if ok, err := merkletree.VerifyTree(shared); !ok || err != nil {
							bad = "shared tree is refused"
						}
						if ok, err := shared.VerifyContent(sl[len(sl)/2]); !ok || err != nil {
							bad = "member of the shared tree is refused"
						}
						if err := tr.RebuildTreeUsing(j.pb); err != nil || !bytes.Equal(tr.MerkleRoot, plainRoot(j.b)) {
							bad = "rebuilt tree is wrong"
						}
						if ok, err := tr.VerifyContent(j.b[0]); !ok || err != nil {
							bad = "member is refused"
						}
					}); err != nil {
						errs[i] = err
					} else if bad != "" {
						errs[i] = errors.New(bad)
					}
				}()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					c.Fatalf("%d goroutines: %v", n, err)
				}
			}
			c.NT(n, len(sl), len(jobs[0].a), len(jobs[0].b))
			c.Note("%d goroutines", n)
		})
}
