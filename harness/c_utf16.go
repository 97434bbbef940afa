package main

import (
	"fmt"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func init() { checks["C19"] = c19 }

// utf16Of encodes a byte string from the definitions of UTF-8 and UTF-16,
// without the standard library's decoders: every byte that is not part of a
// well-formed sequence is one U+FFFD.
func utf16Of(s string) []uint16 {
	var out []uint16
	for i := 0; i < len(s); {
		c, n := decodeUTF8(s[i:])
		i += n
		switch {
		case c < 0x10000:
			out = append(out, uint16(c))
		default:
			v := c - 0x10000
			out = append(out, uint16(0xd800|v/0x400), uint16(0xdc00|v%0x400))
		}
	}
	return out
}

func decodeUTF8(s string) (int, int) {
	b := func(i int) int {
		if i < len(s) {
			return int(s[i])
		}
		return -1
	}
	cont := func(i int) bool { return b(i) >= 0x80 && b(i) < 0xc0 }
	c := b(0)
	switch {
	case c < 0x80:
		return c, 1
	case c >= 0xc2 && c < 0xe0 && cont(1):
		return c&0x1f<<6 | b(1)&0x3f, 2
	case c >= 0xe0 && c < 0xf0 && cont(1) && cont(2):
		v := c&0x0f<<12 | b(1)&0x3f<<6 | b(2)&0x3f
		if v >= 0x800 && (v < 0xd800 || v > 0xdfff) {
			return v, 3
		}
	case c >= 0xf0 && c < 0xf5 && cont(1) && cont(2) && cont(3):
		v := c&0x07<<18 | b(1)&0x3f<<12 | b(2)&0x3f<<6 | b(3)&0x3f
		if v >= 0x10000 && v <= 0x10ffff {
			return v, 4
		}
	}
	return 0xfffd, 1
}

func (w *Worker) utf16(s string) {
	w.eval()
	got := encodeUTF16(s)
	want := utf16Of(s)
	// A later call must not change an earlier result.
	encodeUTF16("x\xff𝒳yz")
	d := ""
	switch {
	case got == nil && len(want) > 0:
		d = "panic or no result"
	case len(got) != len(want):
		d = fmt.Sprintf("%d units, want %d", len(got), len(want))
	default:
		for i := range want {
			if got[i] != want[i] {
				d = fmt.Sprintf("unit %d is %#04x, want %#04x", i, got[i], want[i])
				break
			}
		}
	}
	w.count("units_compared", len(want))
	if d != "" {
		w.violate(d, "utf16", s, fmt.Sprintf("% x", clip(s, 100)))
	}
}

func encodeUTF16(s string) (r []uint16) {
	defer func() { recover() }()
	return lexer.EncodeUTF16(s)
}

// C19: UTF-16.
func c19(c *Check) {
	c.rule = "every code point alone and between two others, every pair of classes of code points, every byte sequence of length up to 3 and all 4-byte sequences with interesting bytes, long random strings of code points and of bytes, against an encoder written from the definitions. Non-trivial: strings with a supplementary code point or an invalid byte; distinct: by string."
	c.assume = append(c.assume, "the harness's own UTF-8 decoder and UTF-16 encoder are the oracle")
	w0 := c.worker(0)
	w0.utf16("")
	c.run("code points", 0x110, func(w *Worker, i int, r *Rng) {
		for cp := rune(i * 0x1000); cp < rune((i+1)*0x1000); cp++ {
			s := string(cp)
			w.utf16(s)
			w.utf16("a" + s + "𝒳" + s)
			w.utf16(s + "\xff" + s)
			w.count("code_points", 1)
			if cp >= 0x10000 {
				w.note(s)
			}
		}
	})
	c.run("bytes", 256, func(w *Worker, i int, r *Rng) {
		buf := []byte{byte(i), 0, 0}
		w.utf16(string(buf[:1]))
		for j := 0; j < 256; j++ {
			buf[1] = byte(j)
			w.utf16(string(buf[:2]))
			for k := 0; k < 256; k++ {
				buf[2] = byte(k)
				w.utf16(string(buf))
				w.count("byte_sequences", 1)
			}
		}
		w.note(string(buf[:1]))
	})
	edge := []byte{0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfe, 0xff, 0xbd, 0xbb, 0xb7, 0xb8}
	c.run("edge bytes", len(edge), func(w *Worker, i int, r *Rng) {
		for _, b := range edge {
			for _, d := range edge {
				for _, e := range edge {
					for _, tail := range []string{"", "a", "\x80"} {
						s := string([]byte{edge[i], b, d, e}) + tail
						w.utf16(s)
						w.note(s)
						w.count("byte_sequences", 1)
					}
				}
			}
		}
	})
	pool := []rune{0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1d4b3, 0x1f600, 0xfffff, 0x100000, 0x10fc00, 0x10fffe, 0x10ffff}
	c.run("random strings", c.n(30000), func(w *Worker, i int, r *Rng) {
		var b strings.Builder
		n := r.Intn(30)
		if r.Chance(0.02) {
			n = r.Intn(5000)
		}
		for ; n > 0; n-- {
			switch r.Intn(4) {
			case 0:
				b.WriteRune(rune(r.Intn(0x110000)))
			case 1:
				b.WriteByte(byte(r.Intn(256)))
			default:
				b.WriteRune(pick(r, pool))
			}
		}
		w.utf16(b.String())
		w.note(b.String())
		if i%4999 == 0 {
			w.sample(fmt.Sprintf("%+q", clip(b.String(), 100)))
		}
	})
	c.require("code_points", 0x110000, "byte_sequences", 16000000, "distinct", 1000000)
}
