package merkle

import (
	"bytes"
	"crypto/sha3"
	"errors"
	"fmt"
	"testing"

	"github.com/dusk-network/dusk-crypto/merkletree"
	"verif/harness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var errHash = errors.New("this payload cannot be hashed")

// payload hashes to out, or fails from its failAt-th call on (0: never).
type payload struct {
	name   string
	out    []byte
	failAt int
	calls  int
	failed int
}

func (p *payload) CalculateHash() ([]byte, error) {
	p.calls++
	if p.failAt > 0 && p.calls >= p.failAt {
		p.failed++
		return nil, errHash
	}
	return p.out, nil
}

// valuePayload is not comparable, so code that compares payloads as values
// or uses them as map keys panics.
type valuePayload struct {
	p    *payload
	junk []byte
}

func (v valuePayload) CalculateHash() ([]byte, error) { return v.p.CalculateHash() }

func base(p merkletree.Payload) *payload {
	switch v := p.(type) {
	case *payload:
		return v
	case valuePayload:
		return v.p
	}
	return nil
}

// world owns the payloads of a case and the memory they hash to.
type world struct {
	c      *hx.C
	shared []byte // one buffer all hashes may live in, back to back
	used   int
	made   int
	wide   bool // hashes of any length instead of 32 bytes
}

func newWorld(c *hx.C) *world {
	return &world{c: c, shared: c.Bytes(1 << 13)}
}

// fresh makes a payload with a hash nobody else has.
func (w *world) fresh() merkletree.Payload {
	w.made++
	n := 32
	if w.wide {
		n = 9 + w.c.Src.IntN(70)
	}
	h := w.c.Bytes(n)
	// distinct by construction
	copy(h, fmt.Sprintf("%08d", w.made))
	p := &payload{name: fmt.Sprint("p", w.made)}
	switch w.c.Src.IntN(3) {
	case 0: // own memory, exactly sized
		p.out = append(make([]byte, 0, n), h...)
		p.out = p.out[:n:n]
	case 1: // in the shared buffer with the next payload's hash behind it
		if w.used+n > len(w.shared) {
			w.used = 0
			w.shared = w.c.Bytes(len(w.shared))
		}
		p.out = w.shared[w.used : w.used+n] // random, so different from all others
		w.used += n
	default: // own memory with spare capacity
		buf := w.c.Bytes(n + 80)
		copy(buf, h)
		p.out = buf[:n]
	}
	if w.c.Src.IntN(4) == 0 {
		return valuePayload{p, nil}
	}
	return p
}

// twin makes another payload with the hash of p in memory of its own.
func (w *world) twin(p merkletree.Payload) merkletree.Payload {
	w.made++
	t := &payload{name: fmt.Sprint("p", w.made), out: append([]byte(nil), base(p).out...)}
	if w.c.Src.IntN(4) == 0 {
		return valuePayload{t, nil}
	}
	return t
}

func (w *world) list(n int) []merkletree.Payload {
	l := make([]merkletree.Payload, n, n+3)
	for i := range l {
		l[i] = w.fresh()
	}
	full := l[:cap(l)]
	for i := n; i < len(full); i++ {
		full[i] = w.fresh() // behind the caller's slice: not to be touched
	}
	return l
}

// memory copies everything the payloads own.
func memory(lists ...[]merkletree.Payload) [][]byte {
	var r [][]byte
	for _, l := range lists {
		l = l[:cap(l)]
		for _, p := range l {
			b := base(p).out
			r = append(r, append([]byte(nil), b[:cap(b)]...))
		}
	}
	return r
}

func sameMemory(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameList(a, b []merkletree.Payload) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if base(a[i]) != base(b[i]) {
			return false
		}
	}
	return true
}

func hashOf(p merkletree.Payload) []byte { return base(p).out }

func h2(l, r []byte) []byte {
	s := sha3.Sum256(append(append([]byte{}, l...), r...))
	return s[:]
}

// levels is the reference hash tree: levels[0] the leaves.
func levels(pl []merkletree.Payload) [][][]byte {
	var cur [][]byte
	for _, p := range pl {
		cur = append(cur, hashOf(p))
	}
	if len(cur)%2 == 1 {
		cur = append(cur, cur[len(cur)-1])
	}
	out := [][][]byte{cur}
	for {
		var next [][]byte
		for i := 0; i < len(cur); i += 2 {
			r := i + 1
			if r == len(cur) {
				r = i
			}
			next = append(next, h2(cur[i], cur[r]))
		}
		out = append(out, next)
		if len(next) == 1 {
			return out
		}
		cur = next
	}
}

func rootOf(pl []merkletree.Payload) []byte {
	l := levels(pl)
	return l[len(l)-1][0]
}

// checkTree compares a tree with the reference for pl; "" if they agree.
func checkTree(t *merkletree.Tree, pl []merkletree.Payload) string {
	if t == nil || t.Root == nil {
		return "no tree"
	}
	lv := levels(pl)
	if !bytes.Equal(t.MerkleRoot, rootOf(pl)) {
		return "wrong MerkleRoot"
	}
	if t.Root.Parent != nil {
		return "the root has a parent"
	}
	if len(t.Leaves) != len(lv[0]) {
		return fmt.Sprintf("%d leaves instead of %d", len(t.Leaves), len(lv[0]))
	}
	for i, l := range t.Leaves {
		if l == nil {
			return "nil leaf"
		}
		want := i
		if i == len(pl) {
			want = i - 1
		}
		if l.Data == nil || base(l.Data) != base(pl[want]) {
			return fmt.Sprintf("leaf %d holds another payload", i)
		}
		if !l.IsLeaf || l.Left != nil || l.Right != nil {
			return fmt.Sprintf("leaf %d is not marked as leaf or has children", i)
		}
		if l.IsDup != (i == len(pl)) {
			return fmt.Sprintf("leaf %d of %d: duplicate flag is %v", i, len(pl), l.IsDup)
		}
		if l.Parent == nil {
			return fmt.Sprintf("leaf %d has no parent", i)
		}
	}
	seen := map[*merkletree.Node]bool{}
	var walk func(n *merkletree.Node, level, idx int) string
	walk = func(n *merkletree.Node, level, idx int) string {
		if n == nil {
			return "missing node"
		}
		if !bytes.Equal(n.Hash, lv[level][idx]) {
			return fmt.Sprintf("hash of node %d at height %d", idx, level)
		}
		if level == 0 {
			if n != t.Leaves[idx] {
				return fmt.Sprintf("leaf %d is another node than listed", idx)
			}
			seen[n] = true
			return ""
		}
		if n.IsLeaf || n.IsDup {
			return fmt.Sprintf("inner node %d at height %d is marked as leaf", idx, level)
		}
		if n.Left == nil || n.Right == nil || n.Left.Parent != n || n.Right.Parent != n {
			return fmt.Sprintf("links of node %d at height %d", idx, level)
		}
		r := 2*idx + 1
		if r == len(lv[level-1]) {
			r = 2 * idx
		}
		if s := walk(n.Left, level-1, 2*idx); s != "" {
			return s
		}
		return walk(n.Right, level-1, r)
	}
	if s := walk(t.Root, len(lv)-1, 0); s != "" {
		return s
	}
	if len(seen) != len(t.Leaves) {
		return "a listed leaf is not in the tree"
	}
	return ""
}

// snapshot records a tree down to pointers, so that any write shows.
type snapNode struct {
	n          merkletree.Node
	hash, data []byte
}
type snapshot struct {
	tree   *merkletree.Tree
	root   *merkletree.Node
	mroot  []byte
	leaves []*merkletree.Node
	nodes  map[*merkletree.Node]snapNode
}

func snap(t *merkletree.Tree) *snapshot {
	s := &snapshot{tree: t, root: t.Root, mroot: append([]byte(nil), t.MerkleRoot...),
		leaves: append([]*merkletree.Node(nil), t.Leaves...), nodes: map[*merkletree.Node]snapNode{}}
	var walk func(n *merkletree.Node)
	walk = func(n *merkletree.Node) {
		if n == nil {
			return
		}
		if _, ok := s.nodes[n]; ok {
			return
		}
		sn := snapNode{n: *n, hash: append([]byte(nil), n.Hash...)}
		if n.Data != nil {
			sn.data = append([]byte(nil), base(n.Data).out...)
		}
		s.nodes[n] = sn
		walk(n.Left)
		walk(n.Right)
	}
	walk(t.Root)
	for _, l := range t.Leaves {
		walk(l)
	}
	return s
}

func (s *snapshot) diff() string {
	o := snap(s.tree)
	if o.root != s.root || !bytes.Equal(o.mroot, s.mroot) || len(o.leaves) != len(s.leaves) || len(o.nodes) != len(s.nodes) {
		return "root, reported root or number of nodes changed"
	}
	for i := range o.leaves {
		if o.leaves[i] != s.leaves[i] {
			return fmt.Sprintf("leaf %d replaced", i)
		}
	}
	for n, a := range s.nodes {
		b, ok := o.nodes[n]
		if !ok {
			return "a node was replaced"
		}
		if a.n.Parent != b.n.Parent || a.n.Left != b.n.Left || a.n.Right != b.n.Right || a.n.IsLeaf != b.n.IsLeaf ||
			a.n.IsDup != b.n.IsDup || !bytes.Equal(a.hash, b.hash) || !bytes.Equal(a.data, b.data) {
			return "a node changed"
		}
		if (a.n.Data == nil) != (b.n.Data == nil) || a.n.Data != nil && base(a.n.Data) != base(b.n.Data) {
			return "the data of a node changed"
		}
	}
	return ""
}

func drawSize(c *hx.C, label string) int {
	switch c.Pick(5, label+".kind") {
	case 0:
		return c.Int(1, 5, label)
	case 1:
		e := c.Int(1, 6, label+".exp")
		n := 1<<uint(e) + c.Int(-1, 1, label+".off")
		return n
	case 2:
		if c.Chance(60, label+".big") {
			if c.Chance(10, label+".huge") {
				return hx.Choose(c, label+".size", 2048, 4096, 10000, 32768, 65536) + c.Int(-2, 2, label+".off")
			}
			return hx.Choose(c, label+".size", 256, 300, 512, 1000, 1024) + c.Int(-2, 2, label+".off")
		}
		return c.Int(1, 140, label)
	default:
		return c.Int(1, 24, label)
	}
}
