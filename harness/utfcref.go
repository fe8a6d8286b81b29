package main

// Independent reference of the UTF-C format.
//
// A code point is one of these symbols, tried in this order:
//   A  the auxiliary alphabet: one byte 0xC0..0xFF;
//   W  the current 128-code-point window (short mode): one byte 0x01..0x7F;
//   E  an extra range (concatenated and renumbered): 0xB1.. and the low byte;
//   L  in long mode within the current 32768-code-point window: two bytes;
//   T  long: 0xA0 + the bits above 16, then two bytes (code point - 0x2600);
//   S  short: 0x80 + the high bits, then the low byte.
// A zero byte is never emitted; a marker in front of the symbol replaces it.

type refUtfc struct {
	window int // start of the current window; in long mode relative to 0x2600
	aux    int // start of the auxiliary alphabet, 0: Latin
	long   bool
}

const latinAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 -"

// extra ranges: first, last+1, number of the first
var refExtra = [4][3]int{{0x2000, 0x2600, 0}, {0x3000, 0x3100, 0x600}, {0xFE00, 0xFE10, 0x700}, {0x1F300, 0x1F5F0, 0x710}}

func newRefUtfc() *refUtfc { return &refUtfc{aux: 0x410} }

// refAux is where the 64 most useful letters of a window start.
func refAux(window int) int {
	switch window {
	case 0x380:
		return 0x391
	case 0x400:
		return 0x410
	case 0x580:
		return 0x5BE
	case 0x600:
		return 0x60B
	case 0x900:
		return 0x90D
	case 0x980:
		return 0x98F
	case 0xA00:
		return 0xA02
	case 0xA80:
		return 0xA8F
	case 0xB00:
		return 0xB0F
	case 0xB80:
		return 0xB8E
	case 0xC80:
		return 0xC8E
	case 0xD00:
		return 0xD0E
	case 0xD80:
		return 0xD9B
	case 0xE00:
		return 0xE01
	case 0xE80:
		return 0xE81
	case 0xF00:
		return 0xF40
	case 0xF80:
		return 0xF90
	case 0x1080:
		return 0x10B0
	case 0x3000:
		return 0x3040
	}
	return window
}

func refMark(out []byte, head []byte, hi, lo int, tail int) []byte {
	// tail: number of bytes after the head
	switch tail {
	case 0: // the single byte lo
		if lo == 0 {
			return append(out, 0xBB)
		}
		return append(out, byte(lo))
	case 1:
		if lo == 0 {
			return append(append(out, 0xBE), head...)
		}
		return append(append(out, head...), byte(lo))
	}
	if len(head) == 0 { // two bytes without a head
		switch {
		case hi == 0 && lo == 0:
			return append(out, 0xBB)
		case hi == 0:
			return append(out, 0xBC, byte(lo))
		case lo == 0:
			return append(out, 0xBE, byte(hi))
		}
		return append(out, byte(hi), byte(lo))
	}
	switch {
	case hi == 0 && lo == 0:
		return append(out, 0xBF, head[0])
	case hi == 0:
		return append(out, 0xBE, head[0], byte(lo))
	case lo == 0:
		return append(out, 0xBD, head[0], byte(hi))
	}
	return append(out, head[0], byte(hi), byte(lo))
}

func (s *refUtfc) put(out []byte, r rune) []byte {
	cp := int(r)
	if s.aux == 0 {
		for i := 0; i < len(latinAlphabet); i++ {
			if int(latinAlphabet[i]) == cp {
				return append(out, byte(0xC0+i))
			}
		}
	} else if d := cp - s.aux; d >= 0 && d < 64 {
		return append(out, byte(0xC0+d))
	}
	extra := -1
	for _, e := range refExtra {
		if cp >= e[0] && cp < e[1] {
			extra = cp - e[0] + e[2]
		}
	}
	if cp >= 0x2600 && extra < 0 {
		v := cp - 0x2600
		if s.long && v-v%0x8000 == s.window {
			return refMark(out, nil, v%0x8000/256, v%256, 2)
		}
		s.aux, s.window, s.long = s.window, v-v%0x8000, true
		return refMark(out, []byte{byte(0xA0 + v/0x10000)}, v/256%256, v%256, 2)
	}
	w := cp - cp%128
	if !s.long && w == s.window {
		return refMark(out, nil, 0, cp%128, 0)
	}
	if extra >= 0 {
		if cp >= 0x3000 && cp < 0x3100 {
			s.aux, s.window, s.long = refAux(s.window), w, false
		}
		return refMark(out, []byte{byte(0xB1 + extra/256)}, 0, extra%256, 1)
	}
	s.aux, s.window, s.long = refAux(s.window), w, false
	if cp < 0x300 {
		s.window = 0
	}
	return refMark(out, []byte{byte(0x80 + cp/256)}, 0, cp%256, 1)
}

func refEncode(str string) []byte {
	s := newRefUtfc()
	var out []byte
	for _, r := range str {
		out = s.put(out, r)
	}
	return out
}
