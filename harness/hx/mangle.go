package hx

import (
	"encoding/binary"
	"fmt"
)

// Mangle corrupts bytes in 1..4 steps as transport, attackers and fuzzers do;
// others are further inputs to splice with.
func Mangle(c *C, b []byte, others ...[]byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	what := ""
	for k := c.Int(1, 4, "steps"); k > 0; k-- {
		n := len(b)
		kind := c.Pick(11, "mangle")
		if n == 0 {
			kind = 10
		}
		pos := func() int {
			p := c.Pick(n, "at")
			if c.Bool("aligned") {
				p = p / 32 * 32
			}
			return p
		}
		switch kind {
		case 0:
			b[pos()] ^= 1 << c.Pick(8, "bit")
			what += " bit"
		case 1:
			b[pos()] = Choose(c, "to", byte(0), 0xff, 0x7f, 0x80, 1)
			what += " byte"
		case 2:
			b = b[:pos()]
			what += " cut"
		case 3:
			b = append(b, c.Bytes(Choose(c, "more", 1, 31, 32, 64, 100))...)
			what += " longer"
		case 4: // a 32-byte field replaced
			p := pos()
			f := c.Bytes(32)
			switch c.Pick(4, "field") {
			case 0:
				f = make([]byte, 32)
			case 1:
				for i := range f {
					f[i] = 0xff
				}
			case 2:
				copy(f, b[c.Pick(n, "from")/32*32:])
			}
			copy(b[p:], f)
			what += " field"
		case 5: // removed
			p := pos()
			q := min(n, p+Choose(c, "len", 1, 4, 32, 64))
			b = append(b[:p:p], b[q:]...)
			what += " removed"
		case 6: // inserted
			p := pos()
			b = append(b[:p:p], append(c.Bytes(Choose(c, "len", 1, 4, 32, 64)), b[p:]...)...)
			what += " inserted"
		case 7: // doubled
			p := pos()
			q := min(n, p+Choose(c, "len", 32, 64, 96))
			b = append(b[:q:q], b[p:]...)
			what += " doubled"
		case 8: // a number
			p := c.Pick(n, "at")
			if c.Bool("head") {
				p = Choose(c, "where", 0, 32, 36)
			}
			var v [4]byte
			binary.BigEndian.PutUint32(v[:], Choose(c, "v", uint32(0), 1, 2, 3, 16, 17, 64, 1000, 1<<16, 1<<20, 1<<22))
			if p < n {
				copy(b[p:], v[:])
			}
			what += " number"
		case 9: // spliced with another
			if len(others) > 0 {
				o := others[c.Pick(len(others), "other")]
				p := min(pos(), len(o))
				b = append(b[:p:p], o[p:]...)
			}
			what += " spliced"
		default: // all random
			b = c.Bytes(Choose(c, "n", 0, 1, 3, 4, 31, 32, 33, 36, 40, 63, 64, 65, 128, 129, 288, 352, c.Int(0, 1500, "size")))
			what += " random"
		}
	}
	return b, fmt.Sprintf("%s (%d bytes)", what, len(b))
}
