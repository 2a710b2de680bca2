package checks

import (
	"bytes"
	"fmt"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C37", Quick: 120000, Deep: 1500000, Run: c37,
		Rule: "a case computes the checksum of octets of up to 70 kB (any density of reserved octets), raw and escaped, with the library and bit by bit; has frames valid and damaged by bursts of up to 16 bits, single bits, swapped and lost checksum octets validated; and gives one decoder the content of each frame of a stream directly and another the frames; handler calls and errors must be the same; non-trivial: distinct octets",
		Min:  map[string]int64{"checksums": 100000, "escaped": 50000, "valid": 60000, "bursts": 100000, "detected": 200000, "direct_frames": 100000, "direct_messages": 10000, "direct_errors": 10000, "part_buffers": 50000}})
}

// c37octets are any octets, with any density of reserved ones.
func c37octets(r *rt.Rand) []byte {
	n := rt.Pick(r, r.Intn(20), r.Intn(20), r.Intn(300), r.Range(1000, 1100))
	if r.P(1, 200) {
		n = r.Range(1, 70000)
	}
	b := r.Bytes(n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = 0xf8 | b[i]&7
		}
	case 1:
		for i := range b {
			if r.P(1, 3) {
				b[i] = rt.Pick(r, byte(0xf7), 0xf8, 0xfd, 0xfe, 0xff, 0xdd, 0xd8, 0x20, 0)
			}
		}
	case 2:
		for i := range b {
			b[i] &= 0x0f
		}
	}
	return b
}

func escaped(r *rt.Rand, b []byte) []byte {
	var out []byte
	every := r.P(1, 4)
	for _, x := range b {
		// Any octet may be escaped, these must be.
		if x >= 0xf8 || every && r.Bool() && x^0x20 < 0xf8 {
			out = append(out, ref.CE, x^0x20)
		} else {
			out = append(out, x)
		}
	}
	return out
}

func c37(c *rt.Ctx) {
	r := c.R
	b := c37octets(r)
	c.Note("octets", b)
	want := ^ref.CRC(b)
	c.Try("CalculateCRC", func() {
		got := socket.CalculateCRC(bytes.NewReader(b))
		c.Check(got == want, "crc", "the checksum register after %d octets is %#04x, not %#04x (%x)", len(b), got, want, b[:min(len(b), 100)])
		c.Count("checksums", 1)
		// Of the unread part of a reader.
		k := r.Intn(len(b) + 1)
		rd := bytes.NewReader(b)
		rd.Seek(int64(k), 0)
		got, w := socket.CalculateCRC(rd), ^ref.CRC(b[k:])
		c.Check(got == w, "crc", "the checksum register after the last %d of %d octets is %#04x, not %#04x", len(b)-k, len(b), got, w)
		c.Check(rd.Len() == 0, "crc", "%d octets are left unread", rd.Len())
		c.Count("checksums", 1)
	})
	c.Try("CalculateCRCCE", func() {
		x := escaped(r, b)
		got := socket.CalculateCRCCE(bytes.NewReader(x))
		c.Check(got == want, "crc-escaped", "the checksum register after %d octets in escaped form is %#04x, not %#04x (%x)", len(b), got, want, x[:min(len(x), 100)])
		c.Count("escaped", 1)
	})
	c.Distinct(b)
	f := ref.WithCRC(b)
	valid := func(x []byte) bool {
		keep := append([]byte{}, x...)
		var v bool
		c.Try("ValidateFrame", func() { v = socket.ValidateFrame(bytes.NewReader(x)) })
		c.Check(bytes.Equal(keep, x), "altered", "validating altered a frame")
		return v
	}
	c.Check(valid(f), "refused", "an intact frame content of %d octets is refused: %x", len(f), f[:min(len(f), 100)])
	c.Count("valid", 1)
	for i := 0; i < 6; i++ {
		x := append([]byte{}, f...)
		what := ""
		switch r.Intn(5) {
		case 0: // a burst of at most 16 bits, in the order in which they are sent
			at, n := r.Intn(8*len(x)), r.Range(1, 16)
			n = min(n, 8*len(x)-at)
			for k := 0; k < n; k++ {
				if k == 0 || k == n-1 || r.Bool() {
					x[(at+k)/8] ^= 1 << ((at + k) % 8)
				}
			}
			what = fmt.Sprintf("bits %d to %d changed", at, at+n-1)
			c.Count("bursts", 1)
		case 1:
			x[r.Intn(len(x))] ^= 1 << r.Intn(8)
			what = "one bit changed"
		case 2: // two octets changed
			x[r.Intn(len(x))] ^= byte(r.Range(1, 255))
			x[r.Intn(len(x))] ^= byte(r.Range(1, 255))
			what = "two octets changed"
		case 3: // checksum octets swapped, complemented
			n := len(x)
			if r.Bool() {
				x[n-1], x[n-2] = x[n-2], x[n-1]
			} else {
				x[n-1], x[n-2] = ^x[n-1], ^x[n-2]
			}
			what = "checksum swapped or complemented"
		default: // cut or extended
			if r.Bool() {
				x = x[:r.Intn(len(x))]
			} else {
				x = append(x, r.Bytes(r.Range(1, 3))...)
			}
			what = "cut or extended"
		}
		n := len(x)
		ok := n >= 2 && ref.CRC(x[:n-2]) == uint16(x[n-2])|uint16(x[n-1])<<8
		if got := valid(x); got != ok {
			c.Fail("validity", "a frame content of %d octets, %s, is taken for valid %v, not %v: %x", n, what, got, ok, x[:min(n, 100)])
		}
		if !ok {
			c.Count("detected", 1)
		}
	}
	if c.I%2 == 0 {
		c37direct(c)
	}
}

// c37direct gives a decoder the contents of frames.
func c37direct(c *rt.Ctx) {
	r := c.R
	var contents [][]byte
	for n := r.Range(1, 8); n > 0; n-- {
		p := c37octets(r)
		p = p[:min(len(p), 200)]
		fs := []byte{ref.First | ref.Last}
		if r.Bool() {
			fs = []byte{ref.First, 0, ref.Last}
		}
		for _, flags := range fs {
			x := ref.EmberContent(flags, p)
			if r.P(1, 6) {
				x[r.Intn(9)] ^= byte(1 << r.Intn(8))
			}
			if r.P(1, 10) {
				x = x[:r.Intn(len(x))]
			}
			x = ref.WithCRC(x)
			if r.P(1, 10) {
				x[r.Intn(len(x))] ^= byte(1 << r.Intn(8))
			}
			if r.P(1, 20) {
				x = x[:r.Intn(len(x))]
			}
			contents = append(contents, x)
			if r.P(1, 4) {
				contents = append(contents, ref.WithCRC([]byte{0, 0x0e, byte(r.Range(1, 3)), 1}))
			}
		}
	}
	var log []string
	decoder := func() *socket.S101Decoder {
		h := func(name string) func(p []byte) errors.Error {
			return func(p []byte) errors.Error {
				log = append(log, fmt.Sprintf("%s %x", name, p))
				if name == "message" {
					c.Count("direct_messages", 1)
				}
				return nil
			}
		}
		return socket.NewS101Decoder(h("request"), h("response"), h("message"), func(e errors.Error) { log = append(log, "error") })
	}
	a := decoder()
	for _, x := range contents {
		c.Input(x)
		c.Try("HandleFrame", func() {
			if e := a.HandleFrame(append([]byte{}, x...)); e != nil {
				log = append(log, "error")
				c.Count("direct_errors", 1)
			}
		})
		c.Count("direct_frames", 1)
	}
	direct := log
	log = nil
	d := decoder()
	for _, x := range contents {
		w := ref.Wrap(x)
		// Only the first octets of a buffer count.
		big := append(append([]byte{}, w...), c37octets(r)...)
		c.Input(big)
		c.Try("DecodeBuffer", func() {
			k := r.Intn(len(w) + 1)
			d.DecodeBuffer(k, big)
			d.DecodeBuffer(len(w)-k, big[k:])
		})
		c.Count("part_buffers", 1)
	}
	c.Check(len(direct) == len(log), "direct", "contents handled directly give %v, as frames %v", direct, log)
	for i := range log {
		c.Check(direct[i] == log[i], "direct", "contents handled directly give %s as event %d, as frames %s", short(direct[i]), i, short(log[i]))
	}
	c.Distinct(bytes.Join(contents, nil))
	c.Sample("%d contents: %d events", len(contents), len(log))
}
