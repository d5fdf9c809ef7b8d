package world

import (
	"bytes"
	"fmt"
	"strconv"
	"unicode/utf8"

	"verifsim/model"
)

type B = model.B
type Fields = model.Fields

const printable = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./:<>[]\"\\=@#!$%&'()*+,;?^`{|}~"
const sdchars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./:<>[\\@#!$%&'()*+,;?^`{|}~"
const plainch = "abcdefghijklmnopqrstuvwxyz0123456789"

func (r *Rand) chars(set string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = set[r.N(len(set))]
	}
	return b
}

// header draws a header field value; "" stands for the nil value.
func (r *Rand) header(max int, plain bool) B {
	if r.P(25) {
		return nil
	}
	set := printable
	if plain || r.P(60) {
		set = plainch
	}
	n := r.Len(max)
	b := r.chars(set, n)
	if string(b) == "-" {
		b[0] = 'x'
	}
	return r.splice(8, b, func(b B) bool { return model.Graph(b, max) && string(b) != "-" })
}

// TS draws a valid RFC 5424 timestamp.
func (r *Rand) TS() string {
	if len(Dict.Ints) > 0 && r.P(10) {
		return r.hintTS()
	}
	if r.P(4) { // where a clock or a Time is zero
		return r.Pick("1970-01-01T00:00:00", "0001-01-01T00:00:00", "1970-01-01T00:00:00.0", "1969-12-31T23:59:59.999999") + r.Pick("Z", "Z", "+00:00")
	}
	y := r.PickI(0, 1, 1969, 1970, 1985, 1999, 2000, 2003, 2016, 2018, 2024, 2100, 2400, 9999)
	if r.P(40) {
		y = r.In(1900, 2100)
	}
	m := r.In(1, 12)
	d := r.In(1, model.DaysIn(y, m))
	if r.P(20) {
		m = 2
		d = model.DaysIn(y, 2)
	}
	h, mi, s := r.In(0, 23), r.In(0, 59), r.In(0, 59)
	if r.P(15) {
		h, mi, s = 23, 59, 59
	}
	if r.P(10) {
		h, mi, s = 0, 0, 0
	}
	t := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, h, mi, s)
	if r.P(55) {
		n := r.In(1, 6)
		f := r.chars("0123456789", n)
		if r.P(20) {
			for i := range f {
				f[i] = '0'
			}
		}
		if r.P(20) {
			for i := range f {
				f[i] = '9'
			}
		}
		t += "." + string(f)
	}
	switch r.W(50, 10, 20, 20) {
	case 0:
		t += "Z"
	case 1:
		t += r.Pick("+00:00", "-00:00")
	case 2:
		t += r.Pick("+02:00", "-07:00", "+05:30", "-03:30", "+14:00", "-12:00", "+23:59", "-23:59", "+00:01", "-00:01")
	default:
		t += fmt.Sprintf("%s%02d:%02d", r.Pick("+", "-"), r.In(0, 23), r.In(0, 59))
	}
	return t
}

// hintTS draws a valid timestamp with components of the dictionary.
func (r *Rand) hintTS() string {
	y := r.or(50, 0, 9999, r.In(1900, 2100))
	m := r.or(50, 1, 12, r.In(1, 12))
	d := r.or(50, 1, model.DaysIn(y, m), r.In(1, model.DaysIn(y, m)))
	t := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, r.or(50, 0, 23, r.In(0, 23)), r.or(50, 0, 59, r.In(0, 59)), r.or(50, 0, 59, r.In(0, 59)))
	if n := r.N(7); n > 0 {
		t += "." + string(r.chars("0123456789", n))
	}
	if r.P(50) {
		return t + "Z"
	}
	return t + fmt.Sprintf("%s%02d:%02d", r.Pick("+", "-"), r.or(50, 0, 23, r.In(0, 23)), r.or(50, 0, 59, r.In(0, 59)))
}

var words = []string{"An application event log entry...", "'su root' failed for lonvick on /dev/pts/8", "msg", "κόσμε", "16 <1>1 - - - - - -", "<1>1 - - - - - -", "x=1 y=\"2\" [z]", "héllo wörld", "日本語", "🜁 alchemy", "\xEF\xBB\xBFbom", "\xEF\xBB\xBF'su root' κόσμε", "a\\b", "\\\"]", "]", "\"", "\\", "tab\there", "nul\x00byte", "cr\r", "end-", "0123456789", " lead", "trail ", "<", ">", "-"}

// utf draws valid UTF-8 text of about n bytes.
func (r *Rand) utf(n int, specials bool) []byte {
	var b []byte
	for len(b) < n {
		switch r.W(50, 10, 10, 10, 5, 15) {
		case 0:
			b = append(b, plainch[r.N(len(plainch))])
		case 1:
			b = utf8.AppendRune(b, rune(r.In(0x80, 0x7ff)))
		case 2:
			c := rune(r.In(0x800, 0xffff))
			if c >= 0xd800 && c <= 0xdfff {
				c = 0xfffd
			}
			b = utf8.AppendRune(b, c)
		case 3:
			b = utf8.AppendRune(b, rune(r.In(0x10000, 0x10ffff)))
		case 4:
			b = append(b, byte(r.In(0, 127)))
		default:
			if specials {
				b = append(b, "\"\\]"[r.N(3)])
			} else {
				b = append(b, ' ')
			}
		}
	}
	return b
}

// huge is a size at which 16-bit counters and buffers of that size end.
func (r *Rand) huge() int {
	if r.P(4) {
		return r.PickI(1<<18, 1<<19, 1<<20-1, 1<<20+1, 1<<20+50, 1<<21+1)
	}
	return r.PickI(32767, 32769, 65535, 65536, 65537, 70000, 70000, 131072, 131080)
}

// text draws a MSG.
func (r *Rand) text() B {
	if n, ok := r.hintUp(4, 1, 20000, 3<<20); ok {
		return r.chars(printable+" ", n)
	}
	return r.splice(6, r.text0(), nil)
}

func (r *Rand) text0() B {
	if r.N(4000) == 0 {
		return r.chars(printable+" ", r.huge())
	}
	if r.P(2) {
		return r.chars(printable+" ", r.PickI(127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4097, 7000))
	}
	switch r.W(25, 35, 15, 10, 10, 5) {
	case 0:
		return nil
	case 1:
		return B(words[r.N(len(words))])
	case 2:
		return r.utf(r.In(1, 60), true)
	case 3: // any octets
		n := r.In(1, 40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b
	case 4:
		return B(string(words[r.N(len(words))]) + " " + string(words[r.N(len(words))]))
	default:
		return r.chars(printable+" ", r.In(60, 400))
	}
}

func (r *Rand) sdval() B {
	if n, ok := r.hintUp(4, 1, 5000, 3<<20); ok {
		return r.utf(n, true)
	}
	return r.splice(6, r.sdval0(), func(b B) bool { return utf8.Valid(b) })
}

func (r *Rand) sdval0() B {
	if r.N(12000) == 0 {
		return r.utf(r.huge(), true)
	}
	if r.P(2) {
		return r.utf(r.PickI(127, 128, 129, 255, 256, 257, 500, 1023, 1024, 1025, 2100, 4097), true)
	}
	switch r.W(30, 25, 20, 15, 10) {
	case 0:
		return r.chars(plainch, r.In(1, 10))
	case 1:
		return B(words[r.N(len(words))])
	case 2:
		return r.utf(r.In(1, 20), true)
	case 3:
		return r.chars("\"\\]ab", r.In(1, 8))
	default:
		return r.utf(r.In(20, 120), true)
	}
}

// FieldsGen draws the fields of a valid message. anyText allows message
// texts that are not UTF-8.
func (r *Rand) FieldsGen() Fields {
	if r.last != nil && r.P(18) {
		f := r.sibling(*r.last)
		r.last = &f
		return f
	}
	f := r.fieldsGen()
	r.last = &f
	return f
}

func cloneB(b B) B { return append(B(nil), b...) }

// sibling draws a message that differs little from the given one.
func (r *Rand) sibling(o Fields) Fields {
	f := o
	f.Host, f.App, f.Proc, f.MID, f.Msg = cloneB(o.Host), cloneB(o.App), cloneB(o.Proc), cloneB(o.MID), cloneB(o.Msg)
	f.SD = nil
	for _, e := range o.SD {
		c := model.Elem{ID: cloneB(e.ID)}
		for _, p := range e.P {
			c.P = append(c.P, model.Param{N: cloneB(p.N), V: cloneB(p.V)})
		}
		f.SD = append(f.SD, c)
	}
	for n := r.PickI(0, 1, 1, 1, 2, 3); n > 0; n-- {
		switch r.N(9) {
		case 0:
			if f.TS != "" {
				t := f.TS[:19]
				rest := f.TS[19:]
				switch r.N(4) {
				case 0: // other fraction
					for len(rest) > 0 && (rest[0] == '.' || rest[0] >= '0' && rest[0] <= '9') {
						rest = rest[1:]
					}
					if r.P(70) {
						rest = "." + string(r.chars("0123456789", r.In(1, 6))) + rest
					}
				case 1: // other offset
					k := 0
					for k < len(rest) && (rest[k] == '.' || rest[k] >= '0' && rest[k] <= '9') {
						k++
					}
					rest = rest[:k] + r.Pick("Z", "+00:00", "-00:00", "+01:00", "-01:00", "+05:30", "-05:30", "+00:30")
				case 2: // other second
					t = t[:17] + fmt.Sprintf("%02d", r.In(0, 59))
				default: // other day
					t = t[:8] + fmt.Sprintf("%02d", r.In(1, 28)) + t[10:]
				}
				f.TS = t + rest
			} else {
				f.TS = r.TS()
			}
		case 1:
			f.Host = r.near(f.Host, 255)
		case 2:
			f.App = r.near(f.App, 48)
		case 3:
			f.Proc = r.near(f.Proc, 128)
		case 4:
			f.MID = r.near(f.MID, 32)
		case 5:
			f.Pri, f.Ver = r.In(0, 191), r.PickI(1, 1, 2, f.Ver, r.In(1, 999))
		case 6:
			if len(f.SD) > 0 {
				i := r.N(len(f.SD))
				if r.P(40) {
					f.SD[i].ID = r.nearName(f.SD[i].ID)
				} else if k := len(f.SD[i].P); k > 0 {
					j := r.N(k)
					if r.P(50) {
						f.SD[i].P[j].N = r.nearName(f.SD[i].P[j].N)
					} else {
						f.SD[i].P[j].V = r.utf(r.In(1, 12), true)
					}
				}
			}
		case 7:
			f.SD = nil
		default:
			switch r.N(3) {
			case 0:
				f.Msg = append(f.Msg, "x"...)
			case 1:
				if len(f.Msg) > 0 {
					f.Msg = f.Msg[:len(f.Msg)-1]
				}
			default:
				f.Msg = r.text()
			}
		}
	}
	if !f.Valid() {
		return o
	}
	return f
}

// near draws a header value close to b.
func (r *Rand) near(b B, max int) B {
	if len(b) == 0 || r.P(20) {
		return r.header(max, true)
	}
	switch r.N(4) {
	case 0:
		if len(b) < max {
			b = append(b, plainch[r.N(len(plainch))])
		}
	case 1:
		if len(b) > 1 {
			b = b[:len(b)-1]
		}
	case 2:
		b[r.N(len(b))] = printable[r.N(len(printable))]
	default:
		b = swapCase(b, r.N(len(b)))
	}
	if string(b) == "-" {
		b[0] = 'y'
	}
	return b
}

func swapCase(b B, i int) B {
	for k := 0; k < len(b); k++ {
		j := (i + k) % len(b)
		if c := b[j] | 32; c >= 'a' && c <= 'z' {
			b[j] ^= 32
			break
		}
	}
	return b
}

// nearName draws a name close to n.
func (r *Rand) nearName(n B) B {
	b := cloneB(n)
	if len(b) == 0 {
		return r.sdname()
	}
	switch r.N(4) {
	case 0, 1:
		return swapCase(b, r.N(len(b)))
	case 2:
		if len(b) < 32 {
			return append(b, sdchars[r.N(len(sdchars))])
		}
	}
	if len(b) > 1 {
		return b[:len(b)-1]
	}
	b[0] = sdchars[r.N(len(sdchars))]
	return b
}

func (r *Rand) fieldsGen() Fields {
	f := Fields{Pri: r.or(5, 0, 191, r.In(0, 191)), Ver: 1}
	if r.P(15) {
		f.Pri = r.PickI(0, 9, 10, 19, 99, 100, 189, 190, 191)
	}
	if r.P(40) {
		f.Ver = r.or(10, 1, 999, r.PickI(1, 2, 9, 10, 12, 99, 100, 101, 999, r.In(1, 999)))
	}
	if r.P(70) {
		f.TS = r.TS()
	}
	f.Host = r.header(255, false)
	f.App = r.header(48, false)
	f.Proc = r.header(128, false)
	f.MID = r.header(32, false)
	if r.P(55) {
		n := r.or(5, 1, 300, r.PickI(1, 1, 1, 2, 2, 3, 4, 6))
		if r.P(1) {
			n = r.many64()
		}
		crowd := n // of these all but the first few are small
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			id := r.sdname()
			if k := len(f.SD); k > 0 && r.P(20) {
				id = r.nearName(f.SD[k-1].ID)
			}
			if crowd > 20 && (seen[string(id)] || i > 10) {
				id = B("e" + itoa(i))
			}
			if seen[string(id)] {
				continue
			}
			seen[string(id)] = true
			e := model.Elem{ID: id}
			ps := map[string]bool{}
			j := r.or(5, 1, 300, r.PickI(0, 1, 1, 1, 2, 2, 3, 5))
			if r.P(1) {
				j = r.many64()
			}
			if i > 10 {
				j = r.In(0, 1)
			}
			for crowd := j; j > 0; j-- {
				n := r.sdname()
				if k := len(e.P); k > 0 && r.P(20) {
					n = r.nearName(e.P[k-1].N)
				}
				if crowd > 20 && (ps[string(n)] || j < crowd-10) {
					n = B("n" + itoa(j))
				}
				if ps[string(n)] {
					continue
				}
				ps[string(n)] = true
				v := B("v")
				if j >= crowd-10 || r.P(10) {
					v = r.sdval()
				}
				if !utf8.Valid(v) {
					v = B("v")
				}
				e.P = append(e.P, model.Param{N: n, V: v})
			}
			f.SD = append(f.SD, e)
		}
	}
	f.Msg = r.text()
	return f
}

// many64 is a count past what a small table holds.
func (r *Rand) many64() int {
	if r.P(50) {
		return r.PickI(8, 9, 10, 11, 16, 17, 33)
	}
	return r.PickI(63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300)
}

func (r *Rand) sdname() B {
	return r.splice(6, r.sdname0(), okName)
}

func okName(b B) bool {
	for _, c := range b {
		if c == '=' || c == ']' || c == '"' {
			return false
		}
	}
	return model.Graph(b, 32)
}

func (r *Rand) sdname0() B {
	switch r.W(30, 30, 25, 15) {
	case 0:
		return B(r.Pick("id", "exampleSDID@32473", "origin", "meta", "timeQuality", "a", "x-1"))
	case 1:
		return r.chars(plainch, r.In(1, 6))
	case 2:
		return r.chars(sdchars, r.Len(32))
	default:
		return r.chars(plainch, r.Len(32))
	}
}

// Small draws a small valid message.
func (r *Rand) Small() []byte {
	switch r.W(30, 30, 40) {
	case 0:
		return []byte(fmt.Sprintf("<%d>%d - - - - - -", r.In(0, 191), r.In(1, 999)))
	case 1:
		f := Fields{Pri: r.In(0, 191), Ver: 1, App: r.header(8, true), MID: r.header(8, true), Msg: B(words[r.N(len(words))])}
		return f.Wire()
	default:
		f := Fields{Pri: r.In(0, 191), Ver: r.In(1, 20), Host: r.header(20, true), Proc: r.header(5, true), Msg: r.utf(r.In(0, 20), false)}
		if r.P(50) {
			f.SD = []model.Elem{{ID: B("id"), P: []model.Param{{N: B("k"), V: r.utf(r.In(1, 6), true)}}}}
		}
		return f.Wire()
	}
}

// Payload draws RFC 5424 bytes: valid, damaged, truncated or odd.
func (r *Rand) Payload(pValid int) []byte {
	if r.P(pValid) {
		if r.P(40) || r.many && r.P(97) {
			return r.Small()
		}
		return r.FieldsGen().Wire()
	}
	w := r.FieldsGen().Wire()
	if r.P(40) {
		w = r.Small()
	}
	switch r.W(25, 35, 10, 10, 20, 8, 25) {
	case 5:
		return r.utfEdge()
	case 6:
		return r.Grammar()
	case 0:
		return w[:r.N(len(w)+1)]
	case 1:
		return r.Damage(w, r.PickI(1, 1, 1, 2, 3))
	case 2:
		return append([]byte(nil), oddities[r.N(len(oddities))]...)
	case 3:
		n := r.In(0, 30)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b
	default:
		// damage at a structural place: replace one space-separated word
		return r.wordDamage(w)
	}
}

// edges are byte sequences at the borders of UTF-8 and of the grammar.
var edges = []string{"\x7f", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2\x80", "\xc2\x7f", "\xc2\xc0", "\xdf\xbf", "\xdf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe0\xa0\x80", "\xe0\xbf\xbf", "\xe1\x80\x80", "\xe1\x80", "\xec\xbf\xbf", "\xed\x80\x80", "\xed\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xef\xbb\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\xbf\xbf\xbf", "\xf1\x80\x80\x80", "\xf3\xbf\xbf\xbf", "\xf4\x80\x80\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xf0\x9f", "\xf0\x9f\x98", "\xe2\x82", "\x00", "\r\n", "\n", "\t", "\\", "\\\\", "\\\"", "\\]", "\\n", "\"]", "] ["}

// utfEdge draws a message with such a sequence where UTF-8 matters.
func (r *Rand) utfEdge() []byte {
	e := r.edge()
	a, z := "", ""
	if r.P(50) {
		a = string(r.utf(r.In(0, 6), false))
	}
	if r.P(50) {
		z = string(r.utf(r.In(0, 6), false))
	}
	var b []byte
	switch r.N(4) {
	case 0, 1:
		b = []byte("<1>1 - - - - - [a b=\"" + a + e + z + "\"]")
		if r.P(30) {
			b = append(b, " m"...)
		}
	case 2:
		b = []byte("<1>1 - - - - - - \xef\xbb\xbf" + a + e + z)
	default:
		b = []byte("<1>1 - - - - - - " + a + e + z)
	}
	if r.P(20) {
		b = r.Damage(b, 1)
	}
	return b
}

func (r *Rand) edge() string {
	if w, ok := r.word(15); ok {
		return string(w)
	}
	return edges[r.N(len(edges))]
}

var oddities = []string{"", "<", "<>", "<1", "<1>", "<1>1", "<1>1 ", "<1>12", "<1>123", "<1>1234", "<0>0", "<01>1 - - - - - -", "<192>1 - - - - - -", "<191>999 - - - - - -", "<1>1 - - - - -", "<1>1 - - - - - ", "<1>1 - - - - - [", "<1>1 - - - - - []", "<1>1 - - - - - [a", "<1>1 - - - - - [a]", "<1>1 - - - - - [a b]", "<1>1 - - - - - [a b=]", `<1>1 - - - - - [a b="]`, `<1>1 - - - - - [a b=""]`, `<1>1 - - - - - [a b="\""]`, `<1>1 - - - - - [a b="\"]`, `<1>1 - - - - - [a b="c" b="d"]`, `<1>1 - - - - - [a][a]`, `<1>1 - - - - - [a b="c"][a d="e"]`, `<1>1 - - - - - [a b="c"] `, `<1>1 - - - - - [a b="c"]x`, "<1>1 - - - - - -x", "<1>1 - - - - - - \xEF\xBB\xBF", "<1>1 - - - - - - \xEF\xBB\xBF\xC3\x28", "<1>1 - - - - - - \xEF\xBB", "<1>1 - - - - - - \xC3\x28", "<1>1  - - - - -", "<1>1 2018-02-30T00:00:00Z - - - - -", "<1>1 2016-02-29T00:00:00Z - - - - - m", "<1>1 2003-10-11T22:14:15.003 - - - - -", "<1>1 2003-10-11T22:14:15.0030001Z - - - - -", "<1>1 2003-10-11T24:00:00Z - - - - -", "<1>1 2003-10-11T22:14:60Z - - - - -", "<1>1 2003-10-11t22:14:15z - - - - -", "bad\n<1>1 - - - - - -", "\n<1>1 - - - - - -", "<1>x\n<2>2 - h - - - -", "<1>1 - - - - - -\n", "<34>1 2003-10-11T22:14:15.003Z mymachine.example.com su - ID47 - \xEF\xBB\xBF'su root' failed for lonvick on /dev/pts/8"}

func (r *Rand) wordDamage(w []byte) []byte {
	var idx []int
	for i, c := range w {
		if c == ' ' {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return r.Damage(w, 1)
	}
	k := r.N(len(idx))
	st := idx[k] + 1
	en := len(w)
	if k+1 < len(idx) {
		en = idx[k+1]
	}
	var rep []byte
	switch r.N(9) {
	case 0:
		rep = nil
	case 1:
		rep = []byte("-")
	case 2:
		rep = r.chars(plainch, r.PickI(32, 33, 48, 49, 128, 129, 255, 256))
	case 3:
		rep = []byte(r.TS())
	case 4:
		rep = append(append([]byte(nil), w[st:en]...), byte(r.N(256)))
	case 5:
		rep = []byte(r.Pick("[a]", "[a", "[a b=\"c\"]", "[", "]", "--", "\x7f", "\xff", "é"))
	case 6:
		rep = append([]byte{byte(r.N(256))}, w[st:en]...)
	case 7:
		rep = []byte(" ")
	default:
		if en > st {
			rep = append([]byte(nil), w[st:en-1]...)
		}
	}
	return append(append(append([]byte(nil), w[:st]...), rep...), w[en:]...)
}

// Damage applies n byte-level damages.
func (r *Rand) Damage(w []byte, n int) []byte {
	b := append([]byte(nil), w...)
	for ; n > 0; n-- {
		if len(b) == 0 {
			return append(b, byte(r.N(256)))
		}
		i := r.N(len(b))
		if r.P(50) && len(b) > 30 {
			i = r.N(30)
		}
		if w, ok := r.word(10); ok {
			b = append(b[:i:i], append(w, b[i:]...)...)
			continue
		}
		switch r.W(25, 15, 15, 20, 10, 15, 8) {
		case 6:
			b = append(b[:i], append([]byte(edges[r.N(len(edges))]), b[i:]...)...)
		case 0:
			b[i] ^= 1 << r.N(8)
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{byte(r.N(256))}, b[i:]...)...)
		case 3:
			b[i] = "<>[]\"\\= -\n\r\x00\x7f0129T:.Z+\xc3\xef\xff"[r.N(25)]
		case 4:
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		default:
			j := i + r.In(1, 6)
			if j > len(b) {
				j = len(b)
			}
			if r.P(50) {
				b = append(b[:i], append(append([]byte(nil), b[i:j]...), b[i:]...)...)
			} else {
				b = append(b[:i], b[j:]...)
			}
		}
	}
	return b
}

// Sized draws a valid message of exactly n bytes (n >= 18).
func (r *Rand) Sized(n int) []byte {
	for _, base := range [][]byte{r.FieldsGen().Wire(), []byte("<34>1 - h a - - -"), []byte("<1>1 - - - - - -")} {
		if d := n - len(base) - 1; d >= 1 {
			if r2 := model.Recognise(base, false); r2.OK && r2.Want.Text == nil {
				return append(append(base, ' '), r.chars(plainch, d)...)
			}
			base = append(base, ' ')
			return append(base, r.chars(plainch, d)...)
		}
	}
	return []byte("<1>1 - - - - - -")
}

func itoa(n int) string { return strconv.Itoa(n) }

// nearTS draws a timestamp with one component at or over its border.
func (r *Rand) nearTS() string {
	y, m, d := r.PickI(0, 1, 1900, 2000, 2016, 2019, 2100, 9999), r.In(1, 12), r.In(1, 28)
	h, mi, s := r.In(0, 23), r.In(0, 59), r.In(0, 59)
	off, frac, t := "Z", "", "T"
	f2 := "%02d"
	f := [6]string{"%04d", f2, f2, f2, f2, f2}
	switch r.N(12) {
	case 0: // a day that the month may not have
		d = model.DaysIn(y, m) + r.In(0, 1)
	case 1:
		m = r.PickI(1, 4, 6, 9, 11, 2, 12)
		d = r.PickI(28, 29, 30, 31, 32, 0, 1)
	case 2:
		m = r.PickI(0, 1, 9, 10, 12, 13, 19, 20)
	case 3:
		h = r.PickI(0, 9, 19, 20, 23, 24, 29)
	case 4:
		mi = r.PickI(0, 59, 60, 61, 99)
	case 5:
		s = r.PickI(0, 59, 60, 61, 99)
	case 6:
		frac = "." + string(r.chars("0123456789", r.In(0, 8)))
	case 7:
		off = r.Pick("+", "-") + fmt.Sprintf("%02d:%02d", r.PickI(0, 9, 12, 14, 19, 20, 23, 24, 29), r.PickI(0, 30, 59, 60, 99))
	case 8:
		off = r.Pick("", "z", "+0000", "+00", "+00:0", "+00:000", "ZZ", "-", "Z+00:00", " Z", "UTC")
	case 9: // a digit too many or too few
		f[r.N(6)] = r.Pick("%d", "%03d", "%01d", "%05d")
	case 10:
		t = r.Pick("t", " ", "", "TT", "_", "-")
	default:
		frac = r.Pick(".", ",5", ".000000", ".0000000", ".999999", ".9999999", "..5", ".5.5", ":00")
	}
	return fmt.Sprintf(f[0]+"-"+f[1]+"-"+f[2], y, m, d) + t + fmt.Sprintf(f[3]+":"+f[4]+":"+f[5], h, mi, s) + frac + off
}

// nearHeader draws a header field at or over its length, or with a character
// at or over the border of those it may hold.
func (r *Rand) nearHeader(max int) []byte {
	set := plainch
	if r.P(40) {
		set = sdchars
	}
	switch r.N(7) {
	case 4, 5:
		// one character that may not be there, anywhere in a long text
		n := max
		if r.P(40) {
			n = r.In(1, max)
		}
		b := r.chars(set, n)
		b[r.N(len(b))] = byte(r.PickI(0, 9, 10, 31, 32, 127, 128, 255, 34, 61, 93))
		return b
	case 0:
		return r.chars(set, r.or(15, 0, 300, r.PickI(max-1, max, max, max+1, max+1, max+2)))
	case 1:
		return []byte(r.Pick("", "-", "--", "a-", "-a", "[", "]", "\"", "=", "\\", "<1>1", "!", "~"))
	default:
		b := r.chars(plainch, r.In(0, 6))
		i := r.N(len(b) + 1)
		e := []byte{byte(r.PickI(0, 9, 10, 13, 31, 32, 33, 34, 61, 93, 126, 127, 128, 160, 255, r.N(256)))}
		return append(b[:i:i], append(e, b[i:]...)...)
	}
}

// nearSD draws structured data at or over the border of the grammar.
func (r *Rand) nearSD() []byte {
	name := func() string {
		switch r.N(5) {
		case 0:
			return string(r.chars(sdchars, r.PickI(31, 32, 32, 33, 33, 34)))
		case 1:
			return string(r.nearHeader(32))
		default:
			return r.Pick("a", "b", "id@1", "x", "A", "a")
		}
	}
	val := func() string {
		switch r.N(4) {
		case 0:
			return r.edge()
		case 1:
			return ""
		case 2:
			return r.Pick("a\\", "\\\\", "\\]", "\\\"", "a]", "a\"", "\\a", "\\\\\\", "=", " ", "[", "\\\\]", "a\\\\\"")
		default:
			return string(r.utf(r.In(0, 5), false))
		}
	}
	s := ""
	for k := r.PickI(1, 1, 1, 2, 2, 3); k > 0; k-- {
		s += "[" + name()
		for j := r.PickI(0, 1, 1, 2, 3); j > 0; j-- {
			s += r.Pick(" ", " ", " ", " ", " ", " ", " ", "", "  ", "\t") + name() + r.Pick("=", "=", "=", "=", "=", "=", "", " =", "= ", "==") + r.Pick("\"", "\"", "\"", "\"", "\"", "", "'") + val() + r.Pick("\"", "\"", "\"", "\"", "\"", "", "\"\"")
		}
		s += r.Pick("]", "]", "]", "]", "]", "]", " ]", "", "]]", "] ")
	}
	return []byte(s)
}

// Grammar draws a message by the grammar with up to two fields at or over
// their borders.
func (r *Rand) Grammar() []byte {
	bad := map[int]bool{r.N(9): true}
	if r.P(25) {
		bad[r.N(9)] = true
	}
	if r.P(8) {
		bad = nil
	}
	pri, ver := strconv.Itoa(r.In(0, 191)), strconv.Itoa(r.In(1, 999))
	if bad[0] {
		pri = r.Pick("", "0", "00", "01", "9", "19", "99", "100", "109", "119", "189", "190", "191", "192", "199", "200", "256", "257", "290", "291", "448", "999", "1000", "0191", "1 ", "-1", "+1", "1.0", "x", "1>")
	}
	if bad[1] {
		ver = r.Pick("", "0", "00", "01", "1", "9", "10", "99", "100", "999", "1000", "10000", "65537", "010", "x", "1x", "-1", "1.0", "-")
	}
	f := make([][]byte, 7)
	for i, max := range []int{0, 255, 48, 128, 32} {
		switch {
		case i == 0 && bad[2]:
			f[0] = []byte(r.nearTS())
		case i == 0:
			f[0] = []byte("-")
			if r.P(60) {
				f[0] = []byte(r.TS())
			}
		case bad[i+2]:
			f[i] = r.nearHeader(max)
		case r.P(50):
			f[i] = []byte("-")
		default:
			f[i] = r.chars(plainch, r.Len(max/4)+1)
		}
	}
	f[5] = []byte("-")
	if bad[7] {
		f[5] = r.nearSD()
	} else if r.P(40) {
		g := Fields{Pri: 1, Ver: 1, SD: r.fieldsGen().SD}
		w := g.Wire()
		f[5] = bytes.TrimPrefix(w, []byte("<1>1 - - - - - "))
		if len(f[5]) == len(w) {
			f[5] = bytes.TrimPrefix(w, []byte("<1>1 - - - - "))
		}
	}
	out := []byte("<" + pri + ">" + ver)
	for i := 0; i < 6; i++ {
		out = append(append(out, ' '), f[i]...)
	}
	if bad[8] {
		e := r.edge()
		out = append(out, r.Pick("", " ", "  ", "\n", " \xef\xbb\xbf", " \xef\xbb", "\t", "x")+r.Pick("", "a")+e+r.Pick("", "z")...)
	} else if r.P(40) {
		out = append(append(out, ' '), r.utf(r.In(0, 8), true)...)
	}
	return out
}
