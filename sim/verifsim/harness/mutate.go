//go:build go1.22

package harness

import "github.com/cloudflare/cfrpki/verifsim"

// Structure-aware mutation of DER: one or two elements anywhere in the tree are
// deleted, repeated, emptied, cut, retagged, given a wrong length and so on, and
// the lengths around them are made right again.

type derNode struct {
	tag  byte
	kids []*derNode
	cons bool
	val  []byte
	raw  []byte // replaces the encoding
}

func derParse(d []byte) ([]*derNode, bool) {
	var out []*derNode
	for len(d) > 0 {
		if len(d) < 2 || d[0]&0x1f == 0x1f {
			return nil, false
		}
		n, off := int(d[1]), 2
		if n == 0x80 || n > 0x84 {
			return nil, false
		}
		if n > 0x80 {
			k := n & 0x7f
			if len(d) < 2+k {
				return nil, false
			}
			n = 0
			for i := 0; i < k; i++ {
				n = n<<8 | int(d[2+i])
			}
			off += k
		}
		if n < 0 || len(d) < off+n {
			return nil, false
		}
		x := &derNode{tag: d[0], val: d[off : off+n]}
		if d[0]&0x20 != 0 || (d[0] == 4 && n > 1) {
			if k, ok := derParse(x.val); ok && (d[0] != 4 || len(k) == 1 && (k[0].tag == 0x30 || k[0].tag < 5)) {
				x.kids, x.cons = k, true
			}
		}
		out = append(out, x)
		d = d[off+n:]
	}
	return out, true
}

func (n *derNode) encode() []byte {
	if n.raw != nil {
		return n.raw
	}
	if !n.cons {
		return tlv(n.tag, n.val)
	}
	var l [][]byte
	for _, k := range n.kids {
		l = append(l, k.encode())
	}
	return tlv(n.tag, l...)
}

type derPos struct {
	list *[]*derNode
	i    int
}

func derWalk(list *[]*derNode, out *[]derPos) {
	for i := range *list {
		*out = append(*out, derPos{list, i})
		if (*list)[i].cons {
			derWalk(&(*list)[i].kids, out)
		}
	}
}

func mutateDER(r *verifsim.Rand, d []byte) []byte {
	top, ok := derParse(d)
	if !ok {
		return garble(r, d, r.Intn(5))
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		var pos []derPos
		derWalk(&top, &pos)
		if len(pos) < 2 {
			break
		}
		at := pos[1+r.Intn(len(pos)-1)]
		l, n := *at.list, (*at.list)[at.i]
		v := n.val
		if n.cons {
			v = nil
			for _, x := range n.kids {
				v = append(v, x.encode()...)
			}
		}
		uri := n.tag == 0x86 // left alone or removed as a whole
		switch op := r.Intn(12); {
		case op == 0:
			*at.list = append(append([]*derNode{}, l[:at.i]...), l[at.i+1:]...)
		case op == 1:
			*at.list = append(append(append([]*derNode{}, l[:at.i+1]...), n), l[at.i+1:]...)
		case op == 2:
			*at.list = append(append([]*derNode{}, l[:at.i]...), &derNode{tag: n.tag})
			*at.list = append(*at.list, l[at.i+1:]...)
		case op == 3 && !uri && len(v) > 0:
			l[at.i] = &derNode{tag: n.tag, val: v[:r.Intn(len(v))]}
		case op == 4:
			l[at.i] = &derNode{tag: pick(r, 1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0x80, 0x81, 0xa0, 0xa1, n.tag^0x20, n.tag^0x80), val: v}
			if uri {
				l[at.i].val = nil
			}
		case op == 5 && !uri && len(v) > 0:
			b := append([]byte{}, v...)
			b[r.Intn(len(b))] = byte(r.Intn(256))
			l[at.i] = &derNode{tag: n.tag, val: b}
		case op == 6 && !uri:
			b := append([]byte{}, v...)
			for i := 1 + r.Intn(20); i > 0; i-- {
				b = append(b, byte(r.Intn(256)))
			}
			l[at.i] = &derNode{tag: n.tag, val: b}
		case op == 7 && !uri:
			b := make([]byte, pick(r, 1, 2, 3, 4, 5, 8, 9, 17, 33))
			for i := range b {
				b[i] = pick(r, byte(0xff), 0x7f, 0x80, 0x00, 0x01)
			}
			l[at.i] = &derNode{tag: n.tag, val: b}
		case op == 8:
			e := append([]byte{}, n.encode()...)
			if len(e) > 1 {
				e[1] = pick(r, 0x80, 0x84, 0xff, byte(len(v)+1), byte(r.Intn(256)))
			}
			l[at.i] = &derNode{raw: e}
		case op == 9 && at.i+1 < len(l):
			l[at.i], l[at.i+1] = l[at.i+1], l[at.i]
		case op == 10:
			l[at.i] = &derNode{raw: append(append([]byte{n.tag | 0x20, 0x80}, v...), 0, 0)}
		default: // another element of the same document
			o := pos[r.Intn(len(pos))]
			if x := (*o.list)[o.i]; x.tag != 0x86 && x != n {
				l[at.i] = &derNode{raw: x.encode()}
			}
		}
	}
	var out []byte
	for _, n := range top {
		out = append(out, n.encode()...)
	}
	return out
}
