//go:build go1.22

package harness

import (
	"bytes"
	"crypto"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"math/big"
	"math/bits"
	"net/netip"
	"os"
	"sort"
	"time"
)

// A self-contained encoder for the objects of the simulated PKI. It shares no
// code with the repository under test.

var keyPool []byte

type Key struct {
	ID   int
	Priv *rsa.PrivateKey
	SPKI []byte
	SKI  []byte
}

var keyCache = map[int]*Key{}

func NumKeys() int {
	if keyPool == nil {
		b, err := os.ReadFile(os.Getenv("VERIFSIM_KEYS"))
		if err != nil {
			panic(err)
		}
		keyPool = b
	}
	return len(keyPool) / 128
}

func GetKey(i int) *Key {
	if i >= NumKeys() {
		panic("verifsim: key pool exhausted")
	}
	if k := keyCache[i]; k != nil {
		return k
	}
	p := new(big.Int).SetBytes(keyPool[i*128 : i*128+64])
	q := new(big.Int).SetBytes(keyPool[i*128+64 : i*128+128])
	one := big.NewInt(1)
	phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
	d := new(big.Int).ModInverse(big.NewInt(65537), phi)
	pk := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(p, q), E: 65537}, D: d, Primes: []*big.Int{p, q}}
	pk.Precompute()
	pub := dSeq(dInt(pk.N), dInt(big.NewInt(65537)))
	h := sha1.Sum(pub)
	k := &Key{ID: i, Priv: pk, SKI: h[:]}
	k.SPKI = dSeq(dSeq(oidRSA, dNull), dBits(pub, 0))
	keyCache[i] = k
	return k
}

func sign(k *Key, data []byte) []byte {
	h := sha256.Sum256(data)
	s, err := rsa.SignPKCS1v15(nil, k.Priv, crypto.SHA256, h[:])
	if err != nil {
		panic(err)
	}
	return s
}

// weakKey is a public key with the exponent 3 of which nobody has the private
// part. A verifier that does not compare the whole of a decrypted signature
// takes signatures made without it (forge).
var weak *Key

func weakKey() *Key {
	if weak == nil {
		var n []byte
		for i := byte(0); i < 8; i++ {
			h := sha256.Sum256([]byte{'w', i})
			n = append(n, h[:]...)
		}
		n[0] |= 0x80
		n[255] |= 1
		pub := dSeq(dInt(new(big.Int).SetBytes(n)), dInt(big.NewInt(3)))
		h := sha1.Sum(pub)
		weak = &Key{ID: -2, SKI: h[:], SPKI: dSeq(dSeq(oidRSA, dNull), dBits(pub, 0))}
	}
	return weak
}

// forge makes what looks like a signature under weakKey: its third power begins
// like a padded digest of the data.
func forge(data []byte) []byte {
	h := sha256.Sum256(data)
	t := append([]byte{0, 1, 0xff, 0xff, 0}, dSeq(algSHA256, dOct(h[:]))...)
	t = append(t, bytes.Repeat([]byte{0xff}, 256-len(t))...)
	want := new(big.Int).SetBytes(t)
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 700)
	for { // the greatest root below
		d := new(big.Int).Sub(hi, lo)
		if d.Cmp(big.NewInt(1)) <= 0 {
			break
		}
		m := new(big.Int).Add(lo, new(big.Int).Rsh(d, 1))
		if new(big.Int).Exp(m, big.NewInt(3), nil).Cmp(want) <= 0 {
			lo = m
		} else {
			hi = m
		}
	}
	return lo.FillBytes(make([]byte, 256))
}

// --- DER ---

func dLen(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	var b []byte
	for x := n; x > 0; x >>= 8 {
		b = append([]byte{byte(x)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func tlv(tag byte, content ...[]byte) []byte {
	n := 0
	for _, c := range content {
		n += len(c)
	}
	out := append([]byte{tag}, dLen(n)...)
	for _, c := range content {
		out = append(out, c...)
	}
	return out
}
func dSeq(c ...[]byte) []byte { return tlv(0x30, c...) }
func dSet(c ...[]byte) []byte { return tlv(0x31, c...) }
func dSetOf(c ...[]byte) []byte {
	l := append([][]byte{}, c...)
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i], l[j]) < 0 })
	return tlv(0x31, l...)
}
func dInt(v *big.Int) []byte {
	if v.Sign() < 0 {
		n := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(8*(v.BitLen()/8+1))), v)
		return tlv(2, n.Bytes())
	}
	b := v.Bytes()
	if len(b) == 0 || b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return tlv(2, b)
}

// serialNumber is what is encoded for the serial s: serial numbers have up to 20
// octets, and those of different certificates agree in all but the first few.
func serialNumber(s int64) *big.Int {
	v := big.NewInt(s - s%3)
	return v.Add(v, new(big.Int).Lsh(big.NewInt(s%3), 128))
}

func dI64(v int64) []byte               { return dInt(big.NewInt(v)) }
func dOct(b []byte) []byte              { return tlv(4, b) }
func dBits(b []byte, unused int) []byte { return tlv(3, []byte{byte(unused)}, b) }
func dStr(s string) []byte              { return tlv(0x13, []byte(s)) }
func dIA5(s string) []byte              { return tlv(0x16, []byte(s)) }

var dNull = []byte{5, 0}

func dTime(t time.Time) []byte {
	t = t.UTC()
	if t.Year() >= 2050 {
		return dGenTime(t)
	}
	return tlv(0x17, []byte(t.Format("060102150405Z")))
}
func dGenTime(t time.Time) []byte { return tlv(0x18, []byte(t.UTC().Format("20060102150405Z"))) }

func dOID(arcs ...int) []byte {
	b := []byte{byte(arcs[0]*40 + arcs[1])}
	for _, a := range arcs[2:] {
		var e []byte
		e = append(e, byte(a&0x7f))
		for a >>= 7; a > 0; a >>= 7 {
			e = append([]byte{byte(a&0x7f) | 0x80}, e...)
		}
		b = append(b, e...)
	}
	return tlv(6, b)
}

var (
	oidRSA       = dOID(1, 2, 840, 113549, 1, 1, 1)
	oidSHA256RSA = dOID(1, 2, 840, 113549, 1, 1, 11)
	oidSHA256    = dOID(2, 16, 840, 1, 101, 3, 4, 2, 1)
	oidSigned    = dOID(1, 2, 840, 113549, 1, 7, 2)
	oidCT        = dOID(1, 2, 840, 113549, 1, 9, 3)
	oidMD        = dOID(1, 2, 840, 113549, 1, 9, 4)
	oidSTime     = dOID(1, 2, 840, 113549, 1, 9, 5)
	oidMFT       = dOID(1, 2, 840, 113549, 1, 9, 16, 1, 26)
	oidROA       = dOID(1, 2, 840, 113549, 1, 9, 16, 1, 24)
	algSHA256RSA = dSeq(oidSHA256RSA, dNull)
	algSHA256    = dSeq(oidSHA256, dNull)
)

func dName(cn string) []byte { return dSeq(dSet(dSeq(dOID(2, 5, 4, 3), dStr(cn)))) }

func dExt(oid []byte, critical bool, val []byte) []byte {
	if critical {
		return dSeq(oid, []byte{1, 1, 0xff}, dOct(val))
	}
	return dSeq(oid, dOct(val))
}

// --- resources ---

type IPR struct{ Lo, Hi netip.Addr }
type ASR struct{ Lo, Hi uint32 }

// Res is a set of number resources. For each family either a list of disjoint,
// non-adjacent, sorted ranges, or Inherit.
type Res struct {
	V4, V6    []IPR
	AS        []ASR
	I4, I6, A bool // inherit
}

func pfx(s string) IPR { return pfxRange(netip.MustParsePrefix(s)) }
func pfxRange(p netip.Prefix) IPR {
	p = p.Masked()
	b := p.Addr().AsSlice()
	for i := p.Bits(); i < len(b)*8; i++ {
		b[i/8] |= 0x80 >> (i % 8)
	}
	hi, _ := netip.AddrFromSlice(b)
	return IPR{p.Addr(), hi}
}

func (r IPR) asPrefix() (netip.Prefix, bool) {
	a, b := r.Lo.AsSlice(), r.Hi.AsSlice()
	n := 0
	for n < len(a)*8 && a[n/8]&(0x80>>(n%8)) == b[n/8]&(0x80>>(n%8)) {
		n++
	}
	for i := n; i < len(a)*8; i++ {
		m := byte(0x80 >> (i % 8))
		if a[i/8]&m != 0 || b[i/8]&m == 0 {
			return netip.Prefix{}, false
		}
	}
	return netip.PrefixFrom(r.Lo, n), true
}

func bitsOf(b []byte, n int) []byte {
	return dBits(b[:(n+7)/8], (8-n%8)%8)
}

func (r IPR) der() []byte {
	if p, ok := r.asPrefix(); ok {
		return bitsOf(p.Addr().AsSlice(), p.Bits())
	}
	a, b := r.Lo.AsSlice(), r.Hi.AsSlice()
	na, nb := len(a)*8, len(b)*8
	for na > 0 && a[(na-1)/8]&(0x80>>((na-1)%8)) == 0 {
		na--
	}
	for nb > 0 && b[(nb-1)/8]&(0x80>>((nb-1)%8)) != 0 {
		nb--
	}
	bb := append([]byte{}, b...)
	for i := nb; i < len(b)*8; i++ {
		bb[i/8] &^= 0x80 >> (i % 8)
	}
	return dSeq(bitsOf(a, na), bitsOf(bb, nb))
}

func dIPExt(r Res) []byte {
	var fams [][]byte
	for f, l := range [][]IPR{r.V4, r.V6} {
		inh := r.I4
		if f == 1 {
			inh = r.I6
		}
		var ch []byte
		if inh {
			ch = dNull
		} else if len(l) > 0 {
			var parts [][]byte
			for _, x := range l {
				parts = append(parts, x.der())
			}
			ch = dSeq(parts...)
		} else {
			continue
		}
		fams = append(fams, dSeq(dOct([]byte{0, byte(f + 1)}), ch))
	}
	if len(fams) == 0 {
		return nil
	}
	return dExt(dOID(1, 3, 6, 1, 5, 5, 7, 1, 7), true, dSeq(fams...))
}

func dASExt(r Res) []byte {
	var ch []byte
	if r.A {
		ch = dNull
	} else if len(r.AS) > 0 {
		var parts [][]byte
		for _, x := range r.AS {
			if x.Lo == x.Hi {
				parts = append(parts, dI64(int64(x.Lo)))
			} else {
				parts = append(parts, dSeq(dI64(int64(x.Lo)), dI64(int64(x.Hi))))
			}
		}
		ch = dSeq(parts...)
	} else {
		return nil
	}
	return dExt(dOID(1, 3, 6, 1, 5, 5, 7, 1, 8), true, dSeq(tlv(0xa0, ch)))
}

// covers reports whether every resource of b is inside a (no inheritance left).
func (a Res) covers(b Res) bool {
	return ipCovers(a.V4, b.V4) && ipCovers(a.V6, b.V6) && asCovers(a.AS, b.AS)
}

func ipCovers(a, b []IPR) bool {
	for _, x := range b {
		ok := false
		for _, y := range a {
			if y.Lo.Compare(x.Lo) <= 0 && x.Hi.Compare(y.Hi) <= 0 {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
func asCovers(a, b []ASR) bool {
	for _, x := range b {
		ok := false
		for _, y := range a {
			if y.Lo <= x.Lo && x.Hi <= y.Hi {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// effective resolves inheritance of r below a holder with resources p.
func (r Res) effective(p Res) Res {
	o := Res{V4: r.V4, V6: r.V6, AS: r.AS}
	if r.I4 {
		o.V4 = p.V4
	}
	if r.I6 {
		o.V6 = p.V6
	}
	if r.A {
		o.AS = p.AS
	}
	return o
}

// --- certificates ---

type CertSpec struct {
	Serial   int64
	Issuer   string
	Subject  string
	NB, NA   time.Time
	Key      *Key // subject
	Signer   *Key
	SKI, AKI []byte
	CA       bool
	Res      Res
	CRLDP    string
	AIA      string
	Repo     string // SIA caRepository
	Mft      string
	RRDP     string
	Signed   string // SIA signedObject
	BadSig   bool
	ExtraSIA [][]byte
	RawIP    []byte              // replaces the IP extension
	Mut      func([]byte) []byte // applied to what is signed
}

func dSIA(method int, uri string) []byte {
	return dSeq(dOID(1, 3, 6, 1, 5, 5, 7, 48, method), tlv(0x86, []byte(uri)))
}

func dCert(c CertSpec) []byte {
	var exts [][]byte
	if c.CA {
		exts = append(exts, dExt(dOID(2, 5, 29, 19), true, dSeq([]byte{1, 1, 0xff})))
		exts = append(exts, dExt(dOID(2, 5, 29, 15), true, dBits([]byte{0x06}, 1)))
	} else {
		exts = append(exts, dExt(dOID(2, 5, 29, 15), true, dBits([]byte{0x80}, 7)))
	}
	exts = append(exts, dExt(dOID(2, 5, 29, 14), false, dOct(c.SKI)))
	if c.AKI != nil {
		exts = append(exts, dExt(dOID(2, 5, 29, 35), false, dSeq(tlv(0x80, c.AKI))))
	}
	if c.CRLDP != "" {
		exts = append(exts, dExt(dOID(2, 5, 29, 31), false,
			dSeq(dSeq(tlv(0xa0, tlv(0xa0, tlv(0x86, []byte(c.CRLDP))))))))
	}
	if c.AIA != "" {
		exts = append(exts, dExt(dOID(1, 3, 6, 1, 5, 5, 7, 1, 1), false, dSeq(dSIA(2, c.AIA))))
	}
	var sia [][]byte
	if c.Repo != "" {
		sia = append(sia, dSIA(5, c.Repo))
	}
	if c.Mft != "" {
		sia = append(sia, dSIA(10, c.Mft))
	}
	if c.RRDP != "" {
		sia = append(sia, dSIA(13, c.RRDP))
	}
	if c.Signed != "" {
		sia = append(sia, dSIA(11, c.Signed))
	}
	sia = append(sia, c.ExtraSIA...)
	if len(sia) > 0 {
		exts = append(exts, dExt(dOID(1, 3, 6, 1, 5, 5, 7, 1, 11), false, dSeq(sia...)))
	}
	exts = append(exts, dExt(dOID(2, 5, 29, 32), true, dSeq(dSeq(dOID(1, 3, 6, 1, 5, 5, 7, 14, 2)))))
	if c.RawIP != nil {
		exts = append(exts, dExt(dOID(1, 3, 6, 1, 5, 5, 7, 1, 7), true, c.RawIP))
	} else if e := dIPExt(c.Res); e != nil {
		exts = append(exts, e)
	}
	if e := dASExt(c.Res); e != nil {
		exts = append(exts, e)
	}
	tbs := dSeq(
		tlv(0xa0, dI64(2)), dInt(serialNumber(c.Serial)), algSHA256RSA,
		dName(c.Issuer), dSeq(dTime(c.NB), dTime(c.NA)), dName(c.Subject), c.Key.SPKI,
		tlv(0xa3, dSeq(exts...)))
	if c.Mut != nil {
		tbs = c.Mut(tbs)
	}
	sig := sign(c.Signer, tbs)
	if c.BadSig {
		sig[len(sig)/2] ^= 0x55
	}
	out := dSeq(tbs, algSHA256RSA, dBits(sig, 0))
	if i, j := bytes.Index(out, tbs), bytes.LastIndex(out, sig); i >= 0 && j >= 0 {
		sp := []cmsSpan{{i, tbs}, {j, sig}}
		h := sha256.Sum256(out)
		certSpans[h] = sp
		cmsSpans[len(out)] = append(cmsSpans[len(out)], cmsParts{h, sp})
	}
	return out
}

// --- CRL ---

type CRLSpec struct {
	Issuer     string
	Signer     *Key
	AKI        []byte
	Num        int64
	This, Next time.Time
	Revoked    []int64
	RevAt      time.Time
	RawAKI     []byte // replaces the value of the key identifier extension
	Mut        func([]byte) []byte
	BadSig     bool
}

func dCRL(c CRLSpec) []byte {
	if c.RevAt.IsZero() {
		c.RevAt = c.This
	}
	parts := [][]byte{dI64(1), algSHA256RSA, dName(c.Issuer), dTime(c.This), dTime(c.Next)}
	if len(c.Revoked) > 0 {
		var l [][]byte
		for _, s := range c.Revoked {
			l = append(l, dSeq(dInt(serialNumber(s)), dTime(c.RevAt)))
		}
		parts = append(parts, dSeq(l...))
	}
	aki := dSeq(tlv(0x80, c.AKI))
	if c.RawAKI != nil {
		aki = c.RawAKI
	}
	parts = append(parts, tlv(0xa0, dSeq(
		dExt(dOID(2, 5, 29, 35), false, aki),
		dExt(dOID(2, 5, 29, 20), false, dI64(c.Num)))))
	tbs := dSeq(parts...)
	if c.Mut != nil {
		tbs = c.Mut(tbs)
	}
	sig := sign(c.Signer, tbs)
	if c.BadSig {
		sig[len(sig)/2] ^= 0x55
	}
	out := dSeq(tbs, algSHA256RSA, dBits(sig, 0))
	if i, j := bytes.Index(out, tbs), bytes.LastIndex(out, sig); i >= 0 && j >= 0 {
		cmsSpans[len(out)] = append(cmsSpans[len(out)], cmsParts{sha256.Sum256(out), []cmsSpan{{i, tbs}, {j, sig}}})
	}
	return out
}

// --- CMS ---

type CMSSpec struct {
	Type       []byte // eContentType OID
	Content    []byte
	EE         []byte // certificate
	Key        *Key   // EE key
	SKI        []byte
	Time       time.Time
	BadSig     bool
	BadDigest  bool
	NoSigners  bool
	Forged     bool // Key is weakKey
	Indefinite bool // BER: indefinite-length outer wrapper, constructed octet string
}

// cmsSpan is a part of a signed object that signatures protect.
type cmsSpan struct {
	off  int
	data []byte
}

// cmsSpans: by the length of the whole, the protected parts of every signed
// object made. What lies outside of them may be altered without any effect on
// what is signed (the oracle requires nothing of such objects).
var cmsSpans map[int][]cmsParts

var certSpans map[[32]byte][]cmsSpan // of every certificate made

type cmsParts struct {
	hash  [32]byte
	spans []cmsSpan
}

func dCMS(c CMSSpec) []byte {
	out, attrs, sig := dCMS1(c)
	if c.NoSigners {
		return out
	}
	ps := cmsParts{hash: sha256.Sum256(out)}
	parts := [][]byte{c.Content}
	if c.Indefinite {
		n := len(c.Content) / 2
		parts = [][]byte{c.Content[:n], c.Content[n:]}
	}
	at := 0
	for _, x := range append(parts, c.EE, attrs, sig) {
		i := bytes.Index(out[at:], x)
		if i < 0 {
			return out
		}
		if sp := certSpans[sha256.Sum256(x)]; sp != nil {
			for _, y := range sp {
				ps.spans = append(ps.spans, cmsSpan{at + i + y.off, y.data})
			}
		} else {
			ps.spans = append(ps.spans, cmsSpan{at + i, x})
		}
		at += i + len(x)
	}
	cmsSpans[len(out)] = append(cmsSpans[len(out)], ps)
	return out
}

// derLengths finds where the lengths of what contains other elements are. Files
// are converted from BER to DER, which may well restore these.
func derLengths(data []byte) map[int]bool {
	out := map[int]bool{}
	var walk func(from, to int)
	walk = func(from, to int) {
		for from+2 <= to {
			tag, n, at := data[from], int(data[from+1]), from+2
			if n > 0x80 {
				k := n & 0x7f
				if n = 0; k > 3 || at+k > to {
					return
				}
				for i := 0; i < k; i++ {
					n = n<<8 | int(data[at+i])
				}
				at += k
			}
			if at+n > to {
				return
			}
			if tag&0x20 != 0 {
				for i := from + 1; i < at; i++ {
					out[i] = true
				}
				walk(at, at+n)
			}
			from = at + n
		}
	}
	walk(0, len(data))
	return out
}

// sameSigned finds the signed object whose protected parts the data carries.
func sameSigned(data []byte) ([32]byte, bool) {
next:
	for _, ps := range cmsSpans[len(data)] {
		for _, x := range ps.spans {
			if y := data[x.off : x.off+len(x.data)]; !bytes.Equal(y, x.data) {
				free := derLengths(x.data)
				for i := range y {
					if y[i] != x.data[i] && !free[i] {
						continue next
					}
				}
			}
		}
		return ps.hash, true
	}
	return [32]byte{}, false
}

func dCMS1(c CMSSpec) (out, attr, sign1 []byte) {
	md := sha256.Sum256(c.Content)
	if c.BadDigest {
		md[3] ^= 0x55
	}
	attrs := [][]byte{
		dSeq(oidCT, dSet(c.Type)),
		dSeq(oidSTime, dSet(dTime(c.Time))),
		dSeq(oidMD, dSet(dOct(md[:]))),
	}
	set := dSetOf(attrs...)
	var sig []byte
	if c.Forged {
		sig = forge(set)
	} else {
		sig = sign(c.Key, set)
	}
	if c.BadSig {
		sig[len(sig)/2] ^= 0x55
	}
	implicit := append([]byte{0xa0}, set[1:]...)
	si := dSeq(dI64(3), tlv(0x80, c.SKI), algSHA256, implicit, algSHA256RSA, dOct(sig))
	sis := dSet(si)
	if c.NoSigners {
		sis = dSet()
	}
	if c.Indefinite {
		ind := func(tag byte, parts ...[]byte) []byte {
			out := []byte{tag, 0x80}
			for _, p := range parts {
				out = append(out, p...)
			}
			return append(out, 0, 0)
		}
		n := len(c.Content) / 2
		oct := ind(0x24, dOct(c.Content[:n]), dOct(c.Content[n:]))
		encap := ind(0x30, c.Type, ind(0xa0, oct))
		sd := ind(0x30, dI64(3), dSet(algSHA256), encap, tlv(0xa0, c.EE), sis)
		return ind(0x30, oidSigned, ind(0xa0, sd)), set[len(set)-attrLen(attrs):], sig
	}
	encap := dSeq(c.Type, tlv(0xa0, dOct(c.Content)))
	sd := dSeq(dI64(3), dSet(algSHA256), encap, tlv(0xa0, c.EE), sis)
	return dSeq(oidSigned, tlv(0xa0, sd)), set[len(set)-attrLen(attrs):], sig
}

func attrLen(l [][]byte) (n int) {
	for _, x := range l {
		n += len(x)
	}
	return
}

type MftEntry struct {
	Name string
	Hash [32]byte
}

func dManifest(num int64, this, next time.Time, files []MftEntry) []byte {
	var l [][]byte
	for _, f := range files {
		l = append(l, dSeq(dIA5(f.Name), dBits(f.Hash[:], 0)))
	}
	return dSeq(dI64(num), dGenTime(this), dGenTime(next), oidSHA256, dSeq(l...))
}

type ROAPfx struct {
	P   netip.Prefix
	Max int // -1: absent
}

func dROA(asid int64, pf []ROAPfx) []byte {
	var fams [][]byte
	for f := 1; f <= 2; f++ {
		var l [][]byte
		for _, p := range pf {
			if p.P.Addr().Is4() != (f == 1) {
				continue
			}
			a := bitsOf(p.P.Masked().Addr().AsSlice(), p.P.Bits())
			if p.Max >= 0 {
				l = append(l, dSeq(a, dI64(int64(p.Max))))
			} else {
				l = append(l, dSeq(a))
			}
		}
		if len(l) > 0 {
			fams = append(fams, dSeq(dOct([]byte{0, byte(f)}), dSeq(l...)))
		}
	}
	return dSeq(dI64(asid), dSeq(fams...))
}

func talText(uris []string, k *Key, crlf bool) []byte {
	nl := "\n"
	if crlf {
		nl = "\r\n"
	}
	var b bytes.Buffer
	for _, u := range uris {
		b.WriteString(u + nl)
	}
	b.WriteString(nl)
	s := base64.StdEncoding.EncodeToString(k.SPKI)
	for len(s) > 64 {
		b.WriteString(s[:64] + nl)
		s = s[64:]
	}
	b.WriteString(s + nl)
	return b.Bytes()
}

var _ = bits.Len
