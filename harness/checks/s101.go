package checks

import (
	"bytes"
	"fmt"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"

	"verif/harness/ref"
	"verif/harness/rt"
)

func init() {
	rt.Register(&rt.Check{ID: "C17", Quick: 18000, Deep: 360000, Run: c17,
		Rule: "a case encodes payloads of up to 300 kB, now and then 6 MB (lengths around the frame boundaries, any density of reserved octets) with the library, checks every frame with the strict S101 parser, and feeds library and reference frames (also of other versions) in arbitrary chunks, from a buffer that is overwritten after each call, to one decoder; packets are compared, and compared again at the end; non-trivial: a distinct payload and cutting",
		Min:  map[string]int64{"messages": 10000, "frames": 20000, "multi_frame": 1000, "escaped_crc": 20, "chunks": 100000, "empty_payloads": 100, "empty_last": 1000, "megabytes": 3, "versions": 1000}})
	rt.Register(&rt.Check{ID: "C18", Quick: 30000, Deep: 600000, Run: c18,
		Rule: "a case feeds a decoder a stream of intact messages, messages with a frame corrupted between start and end (bits, octets changed, inserted, lost, reserved octets), cut frames, messages without their end, garbage and valid frames of other protocols; what a reference scanner finds by chance to have a valid checksum is discarded; non-trivial: a distinct stream",
		Min:  map[string]int64{"corrupted_frames": 10000, "corrupted_multi": 2000, "cut_frames": 2000, "garbage": 5000, "intact": 15000, "foreign": 5000, "foreign_keepalives": 1000, "unfinished": 2000, "intact_after_damage": 5000}})
	rt.Register(&rt.Check{ID: "C19", Quick: 40000, Deep: 800000, Run: c19,
		Rule: "a case interleaves keep-alive requests and responses (of the library and of the reference) with the frames of multi-frame messages and compares the sequence of handler calls with the stream; handlers may return errors; non-trivial: a distinct sequence of events",
		Min:  map[string]int64{"requests": 10000, "responses": 10000, "inside_messages": 5000, "messages": 10000, "other_versions": 5000, "large": 200, "long_keepalives": 500}})
}

// events records what a decoder reports.
type events struct {
	list  []string
	msgs  [][]byte // as handed out
	copy  [][]byte // copied at once
	errs  int
	d     *socket.S101Decoder
	fails bool
	r     *rt.Rand
}

func newEvents() *events {
	e := &events{}
	ret := func() errors.Error {
		if e.fails && e.r.Bool() {
			return errors.New("handler error")
		}
		return nil
	}
	e.d = socket.NewS101Decoder(
		func(p []byte) errors.Error { e.list = append(e.list, "request"); return ret() },
		func(p []byte) errors.Error { e.list = append(e.list, "response"); return ret() },
		func(p []byte) errors.Error {
			e.list = append(e.list, fmt.Sprintf("message %d", len(e.msgs)))
			e.msgs = append(e.msgs, p)
			e.copy = append(e.copy, append([]byte{}, p...))
			return ret()
		},
		func(err errors.Error) { e.errs++ })
	return e
}

// feed gives b in random chunks, from a buffer that changes afterwards.
func (e *events) feed(c *rt.Ctx, b []byte) {
	r := c.R
	style := r.Intn(4)
	c.Try("DecodeBuffer", func() {
		buf := []byte{}
		for len(b) > 0 {
			n := len(b)
			switch style {
			case 0:
				n = 1
			case 1:
				n = r.Range(1, 5)
			case 2:
				n = r.Range(1, 1500)
			}
			if n > len(b) {
				n = len(b)
			}
			extra := r.Intn(4) // beyond what is announced
			if cap(buf) < n+extra {
				buf = make([]byte, n+extra)
			}
			buf = buf[:n+extra]
			copy(buf, b[:n])
			for i := n; i < len(buf); i++ {
				buf[i] = rt.Pick[byte](r, 0xff, 0xfe, 0xfd, 1)
			}
			e.d.DecodeBuffer(n, buf)
			for i := 0; i < n; i++ {
				if buf[i] != b[i] {
					c.Fail("input", "DecodeBuffer changed its input at %d", i)
				}
				buf[i] = 0xfe
			}
			b = b[n:]
			c.Count("chunks", 1)
		}
	})
}

func payload(r *rt.Rand) []byte {
	var n int
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1, 2:
		n = r.Range(1, 40)
	case 3, 4:
		n = rt.Pick(r, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 511, 512, 513, 1026, 3072, 3073)
	case 5:
		n = r.Range(900, 1100)
	case 6, 7:
		n = r.Range(1, 6000)
	case 8:
		if r.P(1, 500) {
			n = r.Range(300000, 6000000)
		} else if r.P(1, 8) {
			n = r.Range(10000, 300000)
		} else {
			n = r.Range(1, 20000)
		}
	default:
		n = r.Range(0, 300)
	}
	b := r.Bytes(n)
	switch r.Intn(4) {
	case 0: // many reserved octets
		for i := range b {
			if r.P(1, 2) {
				b[i] |= 0xf8
			}
		}
	case 1: // only reserved ones
		for i := range b {
			b[i] |= 0xf8
		}
	case 2: // none
		for i := range b {
			b[i] &= 0x7f
		}
	}
	return b
}

// checkFrames checks what the library made of a payload and returns the octets.
func checkFrames(c *rt.Ctx, p []byte) [][]byte {
	var list *socket.S101FrameList
	in := append([]byte{}, p...)
	c.Try("EncodeMessage", func() { list = socket.EncodeMessage(in) })
	if !bytes.Equal(in, p) {
		c.Fail("input", "EncodeMessage changed its input")
	}
	n := list.Size()
	c.Check(n > 0, "frames", "a payload of %d octets gives no frame", len(p))
	var got []byte
	var out [][]byte
	for i := 0; i < n; i++ {
		b, err := list.GetBytesAt(i)
		c.Check(err == nil, "frames", "frame %d of %d: %s", i, n, es(err))
		f := ref.ParseFrame(b)
		if f.Err != "" {
			c.Note("payload", p)
			c.Note("frame", b)
			c.Fail("frame", "frame %d of %d of a payload of %d octets is invalid: %s", i, n, len(p), f.Err)
		}
		if f.Cmd != 0 {
			c.Fail("frame", "frame %d of a message has command %d", i, f.Cmd)
		}
		want := byte(0)
		if i == 0 {
			want |= ref.First
		}
		if i == n-1 {
			want |= ref.Last
		}
		// The flag for an empty packet may accompany a frame without payload.
		if f.Flags != want && !(len(f.Payload) == 0 && f.Flags == want|ref.Empty) {
			c.Fail("flags", "frame %d of %d has flags %#x instead of %#x", i, n, f.Flags, want)
		}
		size := len(f.Payload)
		for _, o := range f.Payload {
			if o >= 0xf8 {
				size++
			}
		}
		if size > 1025 {
			c.Fail("size", "frame %d of %d of a payload of %d octets carries %d octets, escaped", i, n, len(p), size)
		}
		if len(b) > 4 && b[len(b)-3] == ref.CE || len(b) > 5 && b[len(b)-4] == ref.CE {
			c.Count("escaped_crc", 1)
		}
		c.Max("frame_octets", len(b))
		got = append(got, f.Payload...)
		out = append(out, b)
		c.Count("frames", 1)
	}
	if n > 1 {
		c.Count("multi_frame", 1)
	}
	if !bytes.Equal(got, p) {
		c.Note("payload", p)
		at := 0
		for at < len(got) && at < len(p) && got[at] == p[at] {
			at++
		}
		c.Fail("payload", "the payloads of the frames hold %d octets, the message %d; they differ at %d", len(got), len(p), at)
	}
	return out
}

func c17(c *rt.Ctx) {
	r := c.R
	ev := newEvents()
	var stream []byte
	var want [][]byte
	for n := r.Range(1, 8); n > 0; n-- {
		p := payload(r)
		if r.P(1, 30) {
			p = []byte{}
		}
		if len(p) == 0 {
			c.Count("empty_payloads", 1)
		}
		if len(p) > 300000 {
			c.Count("megabytes", 1)
		}
		want = append(want, p)
		c.Distinct(p, n)
		if r.P(1, 3) {
			var cuts []int
			for at := r.Intn(1500); at < len(p) && len(cuts) < 50; at += r.Range(0, 1500) {
				cuts = append(cuts, at)
			}
			fs := ref.Frames(p, cuts)
			if r.P(1, 4) { // other versions of the frame and of Glow
				c.Count("versions", 1)
				fs = nil
				b := r.Bytes(3)
				for i := 0; i <= len(cuts); i++ {
					from, to, flags := 0, len(p), byte(0)
					if i > 0 {
						from = cuts[i-1]
					} else {
						flags |= ref.First
					}
					if i < len(cuts) {
						to = cuts[i]
					} else {
						flags |= ref.Last
					}
					x := ref.EmberContent(flags, p[from:to])
					x[3], x[7], x[8] = b[0], b[1], b[2]
					fs = append(fs, ref.Wrap(ref.WithCRC(x)))
				}
			} else if r.P(1, 4) { // an empty packet ends the message
				c.Count("empty_last", 1)
				from := 0
				if len(cuts) > 0 {
					from = cuts[len(cuts)-1]
				}
				flags := byte(0)
				if len(cuts) == 0 {
					flags = ref.First
				}
				fs[len(fs)-1] = ref.EmberFrame(flags, p[from:])
				fs = append(fs, ref.EmberFrame(ref.Last|ref.Empty, nil))
			}
			for _, f := range fs {
				stream = append(stream, f...)
			}
		} else {
			for _, f := range checkFrames(c, p) {
				stream = append(stream, f...)
			}
		}
		c.Count("messages", 1)
		if r.P(1, 3) {
			ev.feed(c, stream)
			stream = nil
		}
	}
	ev.feed(c, stream)
	if ev.errs != 0 {
		c.Fail("error", "the decoder reports %d errors for %d intact messages", ev.errs, len(want))
	}
	if len(ev.list) != len(ev.msgs) {
		c.Fail("keepalive", "the decoder reports keep-alives: %v", ev.list)
	}
	if len(ev.msgs) != len(want) {
		c.Fail("count", "%d messages are delivered instead of %d", len(ev.msgs), len(want))
	}
	for i := range want {
		if !bytes.Equal(ev.copy[i], want[i]) {
			c.Note("payload", want[i])
			c.Fail("payload", "message %d of %d octets is delivered as %d other octets", i, len(want[i]), len(ev.copy[i]))
		}
		if !bytes.Equal(ev.msgs[i], want[i]) {
			c.Fail("buffer", "the packet handed out as message %d changed afterwards", i)
		}
	}
	// The packets are the receiver's: writing to them harms nothing.
	for _, m := range ev.msgs {
		for i := range m {
			m[i] = 0x5a
		}
	}
	p := payload(r)
	k := len(ev.msgs)
	for _, f := range ref.Frames(p, nil) {
		ev.feed(c, f)
	}
	if len(ev.msgs) != k+1 || !bytes.Equal(ev.msgs[k], p) || ev.errs != 0 {
		c.Fail("buffer", "after the packets were overwritten the next message is not delivered intact")
	}
	for i := 0; i < k; i++ {
		for _, x := range ev.msgs[i] {
			if x != 0x5a {
				c.Fail("buffer", "the packet handed out as message %d changed afterwards", i)
			}
		}
	}
	c.Sample("%d messages, first of %d octets", len(want), len(want[0]))
}

// candidates lists what a receiver could take for frames in b, however it
// resynchronises: everything between a start (or another end, or the beginning)
// and an end, unescaped leniently.
func candidates(b []byte) [][]byte {
	var out [][]byte
	starts := []int{0}
	for i, x := range b {
		switch x {
		case ref.BOF:
			starts = append(starts, i+1)
		case ref.EOF:
			for _, s := range starts {
				if i < s {
					continue
				}
				out = append(out, unescape(b[s:i], false), unescape(b[s:i], true))
			}
			starts = append(starts, i+1)
			if len(starts) > 40 {
				starts = starts[len(starts)-40:]
			}
		}
	}
	return out
}

func unescape(b []byte, skip bool) []byte {
	var out []byte
	esc := false
	for _, x := range b {
		if skip && (x == ref.BOF || x == ref.EOF) {
			esc = false
			continue
		}
		if esc {
			out = append(out, x^0x20)
			esc = false
		} else if x == ref.CE {
			esc = true
		} else {
			out = append(out, x)
		}
	}
	return out
}

func crcValid(b []byte) bool {
	n := len(b) - 2
	if n < 0 {
		return false
	}
	x := ref.CRC(b[:n])
	return b[n] == byte(x) && b[n+1] == byte(x>>8)
}

func anyValid(b []byte) bool {
	for _, x := range candidates(b) {
		if crcValid(x) {
			return true
		}
	}
	return false
}

// corrupt alters the content of a frame; the result has no valid part.
func corrupt(r *rt.Rand, f []byte) []byte {
	for {
		in := append([]byte{}, f[1:len(f)-1]...)
		for n := r.Range(1, 3); n > 0; n-- {
			i := r.Intn(len(in))
			switch r.Intn(8) {
			case 0, 1:
				in[i] ^= 1 << uint(r.Intn(8))
			case 2:
				in[i] = byte(r.U64())
			case 3:
				if len(in) > 1 {
					in = append(in[:i:i], in[i+1:]...)
				}
			case 4:
				in = append(in[:i:i], append([]byte{byte(r.U64())}, in[i:]...)...)
			case 5:
				in[i] = rt.Pick[byte](r, ref.BOF, ref.EOF, ref.CE)
			case 6: // a burst
				for j := i; j < len(in) && j < i+16; j++ {
					in[j] = byte(r.U64())
				}
			case 7: // cut short
				in = in[:i+1]
			}
		}
		out := append(append([]byte{ref.BOF}, in...), ref.EOF)
		if !bytes.Equal(out, f) && !anyValid(out) && out[0] == ref.BOF {
			return out
		}
	}
}

// cutOff takes octets off the end of a frame, none of them a valid frame's.
func cutOff(r *rt.Rand, f []byte) []byte {
	n := len(f) - 1
	if r.Bool() {
		n = r.Range(2, len(f)-1)
	}
	if n < len(f)-1 && anyValid(append(append([]byte{}, f[:n]...), ref.EOF)) {
		return nil
	}
	return append([]byte{}, f[:n]...)
}

func c18(c *rt.Ctx) {
	r := c.R
	ev := newEvents()
	log := ""
	whole := r.Bool() // one stream instead of unit by unit
	var stream []byte
	var want [][]byte
	minErrs := 0
	damaged := false
	small := func() []byte {
		p := payload(r)
		if len(p) > 3000 {
			p = p[:3000]
		}
		return p
	}
	framesOf := func(p []byte) [][]byte {
		if r.Bool() {
			var fs [][]byte
			l := socket.EncodeMessage(p)
			for i := 0; i < l.Size(); i++ {
				b, _ := l.GetBytesAt(i)
				fs = append(fs, b)
			}
			return fs
		}
		var cuts []int
		for k := r.Intn(5); k > 0 && len(p) > 0; k-- {
			cuts = append(cuts, 0)
		}
		for i := range cuts {
			lo := 0
			if i > 0 {
				lo = cuts[i-1]
			}
			cuts[i] = lo + r.Intn(len(p)-lo+1)
		}
		return ref.Frames(p, cuts)
	}
	unit := func(what string, b []byte, errs int) {
		if len(log) < 20000 {
			log += fmt.Sprintf("%s %x\n", what, b[:min(len(b), 200)])
		}
		minErrs += errs
		c.Distinct(b)
		if whole {
			stream = append(stream, b...)
			return
		}
		before, seen := ev.errs, len(ev.msgs)
		ev.feed(c, b)
		if ev.errs-before < errs {
			c.Note("units", log)
			c.Note("octets", b)
			c.Fail("unreported", "%s: %d errors are reported instead of at least %d", what, ev.errs-before, errs)
		}
		checkDelivered(c, ev, want, seen, what, log)
	}
	for n := r.Range(4, 12); n > 0; n-- {
		switch r.Intn(10) {
		case 9: // its beginning only
			fs := framesOf(small())
			if len(fs) < 2 {
				continue
			}
			k := r.Range(1, len(fs)-1)
			var b []byte
			for _, f := range fs[:k] {
				b = append(b, f...)
			}
			damaged = true
			c.Count("unfinished", 1)
			unit(fmt.Sprintf("the first %d of %d frames of a message", k, len(fs)), b, 0)
		case 0, 1, 2: // intact
			p := small()
			want = append(want, p)
			if damaged {
				c.Count("intact_after_damage", 1)
			}
			damaged = false
			c.Count("intact", 1)
			fs := framesOf(p)
			var b []byte
			for i, f := range fs {
				if i == 0 && r.P(1, 4) {
					// escapes and reserved octets just before the start
					g := rt.Pick(r, []byte{ref.CE}, []byte{ref.BOF}, []byte{ref.BOF, ref.CE}, []byte{ref.EOF}, []byte{ref.BOF, 0, 0x0e, 0}, []byte{ref.BOF, ref.BOF})
					b = append(b, g...)
				}
				b = append(b, f...)
			}
			unit(fmt.Sprintf("intact message %d in %d frames", len(want)-1, len(fs)), b, 0)
		case 3, 4, 5: // one or more frames corrupted
			fs := framesOf(small())
			k := r.Intn(len(fs))
			var b []byte
			errs := 0
			for i, f := range fs {
				if i == k || r.P(1, 10) {
					if g := cutOff(r, f); g != nil && r.P(1, 4) {
						// It lost its end: the start of the next one shows it.
						f = g
						if i == len(fs)-1 {
							f = append(f, ref.BOF)
						}
						c.Count("cut_frames", 1)
					} else {
						f = corrupt(r, f)
						errs++
						c.Count("corrupted_frames", 1)
					}
				}
				b = append(b, f...)
			}
			if len(fs) > 1 {
				c.Count("corrupted_multi", 1)
			}
			damaged = true
			unit(fmt.Sprintf("message with frame %d of %d corrupted", k, len(fs)), b, errs)
		case 6: // garbage
			var g []byte
			for {
				g = r.Bytes(r.Range(1, 60))
				if r.Bool() {
					for i := range g {
						if r.P(1, 3) {
							g[i] = rt.Pick[byte](r, ref.BOF, ref.EOF, ref.CE)
						}
					}
				}
				if r.P(1, 4) { // a frame that lost its end
					f := framesOf(small())[0]
					g = append(g, f[:r.Range(1, len(f)-1)]...)
				}
				if !anyValid(append(append([]byte{}, g...), ref.EOF)) && !anyValid(append([]byte{ref.BOF}, g...)) {
					break
				}
			}
			damaged = true
			c.Count("garbage", 1)
			// What follows starts with its start-of-frame octet.
			unit("garbage", g, 0)
			p := small()
			want = append(want, p)
			c.Count("intact", 1)
			c.Count("intact_after_damage", 1)
			var b []byte
			for _, f := range framesOf(p) {
				b = append(b, f...)
			}
			damaged = false
			unit("intact message after garbage", b, 0)
		default: // another protocol
			ct := ref.EmberContent(rt.Pick[byte](r, 0xc0, 0x80, 0x40, 0), small())
			switch r.Intn(5) {
			case 0:
				ct[0] = byte(r.Range(1, 255))
			case 1:
				ct[1] = rt.Pick[byte](r, 0, 1, 0x0d, 0x0f, 0x8e, byte(r.Range(0x10, 0xff)))
			case 2:
				ct[2] = byte(r.Range(3, 255))
			case 3:
				ct[5] = rt.Pick[byte](r, 0, 2, 0x81, 0xff, byte(r.Range(2, 255)))
			case 4:
				ct[6] = rt.Pick[byte](r, 0, 1, 3, 0xff, byte(r.Range(3, 255)))
			}
			if r.P(1, 3) {
				// not an Ember/Glow message in the first place: a keep-alive, or
				// something short
				ct = []byte{0, 0x0e, byte(r.Range(0, 3)), 1}
				if r.P(1, 3) {
					ct = append(ct, r.Bytes(r.Range(0, 12))...)
				}
				switch r.Intn(3) {
				case 0:
					ct[0] = rt.Pick[byte](r, 1, 2, 0x80, 0xff, byte(r.Range(1, 255)))
				case 1:
					ct[1] = rt.Pick[byte](r, 0, 1, 2, 0x0d, 0x0f, byte(r.Range(0x0f, 255)))
				case 2:
					ct[2] = rt.Pick[byte](r, 3, 4, 0x80, 0x81, 0x82, 0xff, byte(r.Range(3, 255)))
				}
				ct = ct[:rt.Pick(r, len(ct), len(ct), 3, 4)]
				c.Count("foreign_keepalives", 1)
			}
			c.Count("foreign", 1)
			unit(fmt.Sprintf("frame with header %x", ct[:min(len(ct), 9)]), ref.Wrap(ref.WithCRC(ct)), 1)
		}
	}
	// and all is well afterwards
	p := small()
	want = append(want, p)
	c.Count("intact", 1)
	var b []byte
	for _, f := range framesOf(p) {
		b = append(b, f...)
	}
	unit("intact message at the end", b, 0)
	if whole {
		ev.feed(c, stream)
		if ev.errs < minErrs {
			c.Note("units", log)
			c.Fail("unreported", "%d errors are reported instead of at least %d", ev.errs, minErrs)
		}
		checkDelivered(c, ev, want, 0, "the stream", log)
	}
	for i := range ev.msgs {
		if !bytes.Equal(ev.msgs[i], ev.copy[i]) {
			c.Fail("buffer", "the packet handed out as message %d changed afterwards", i)
		}
	}
	c.Sample("%s", log)
}

func checkDelivered(c *rt.Ctx, ev *events, want [][]byte, from int, what, log string) {
	for i := from; i < len(ev.msgs) || i < len(want); i++ {
		if i >= len(want) {
			c.Note("units", log)
			c.Fail("delivered", "%s: %d octets are delivered that are no intact message: %x", what, len(ev.copy[i]), ev.copy[i][:min(len(ev.copy[i]), 100)])
		}
		if i >= len(ev.msgs) {
			c.Note("units", log)
			c.Fail("lost", "%s: intact message %d is not delivered", what, i)
		}
		if !bytes.Equal(ev.copy[i], want[i]) {
			c.Note("units", log)
			c.Fail("altered", "%s: intact message %d of %d octets is delivered as %d other octets", what, i, len(want[i]), len(ev.copy[i]))
		}
	}
	if len(ev.list) != len(ev.msgs) {
		c.Note("units", log)
		c.Fail("keepalive", "%s: keep-alives are reported: %v", what, ev.list)
	}
}

func c19(c *rt.Ctx) {
	r := c.R
	ev := newEvents()
	ev.fails, ev.r = r.P(1, 5), r.Fork()
	var stream []byte
	var want []string
	var msgs [][]byte
	keep := func(inside bool) {
		for r.P(2, 5) {
			req := r.Bool()
			b := ref.KeepAlive(req)
			if r.P(1, 4) { // another version, or more after it
				k := byte(2)
				if req {
					k = 1
				}
				more := r.Bytes(r.Range(1, 6))
				if r.P(1, 8) {
					more = r.Bytes(r.Range(7, rt.Pick(r, 100, 1100, 5000)))
					c.Count("long_keepalives", 1)
				}
				b = ref.Wrap(ref.WithCRC(append([]byte{0, 0x0e, k}, more...)))
				c.Count("other_versions", 1)
			} else if r.Bool() {
				c.Try("keep-alive frames", func() {
					if req {
						b = socket.GetKeepaliveRequest().Bytes()
					} else {
						b = socket.GetKeepAliveResponse().Bytes()
					}
				})
				f := ref.ParseFrame(b)
				wantCmd := byte(2)
				if req {
					wantCmd = 1
				}
				if f.Err != "" || f.Cmd != wantCmd {
					c.Fail("frame", "the library's keep-alive %x is not a valid frame of command %d: %s", b, wantCmd, f.Err)
				}
				b = append(b[:0:0], b...)
			}
			stream = append(stream, b...)
			if req {
				want = append(want, "request")
				c.Count("requests", 1)
			} else {
				want = append(want, "response")
				c.Count("responses", 1)
			}
			if inside {
				c.Count("inside_messages", 1)
			}
		}
	}
	for n := r.Range(1, 8); n > 0; n-- {
		keep(false)
		if r.P(1, 8) {
			continue
		}
		p := payload(r)
		if len(p) > 5000 {
			if r.P(5, 6) {
				p = p[:5000]
			} else if c.Count("large", 1); len(p) > 300000 {
				p = p[:300000]
			}
		}
		var fs [][]byte
		if r.Bool() {
			l := socket.EncodeMessage(p)
			for i := 0; i < l.Size(); i++ {
				b, _ := l.GetBytesAt(i)
				fs = append(fs, b)
			}
		} else {
			var cuts []int
			at := 0
			for k := r.Intn(6); k > 0 && at < len(p); k-- {
				at += r.Intn(len(p) - at + 1)
				cuts = append(cuts, at)
			}
			fs = ref.Frames(p, cuts)
		}
		for i, f := range fs {
			if i > 0 {
				keep(true)
			}
			stream = append(stream, f...)
		}
		want = append(want, fmt.Sprintf("message %d", len(msgs)))
		msgs = append(msgs, p)
		c.Count("messages", 1)
	}
	keep(false)
	ev.feed(c, stream)
	c.Note("stream", stream)
	if fmt.Sprint(ev.list) != fmt.Sprint(want) {
		c.Fail("events", "the handlers are called for %v instead of %v", ev.list, want)
	}
	for i := range msgs {
		if !bytes.Equal(ev.copy[i], msgs[i]) {
			c.Fail("message", "message %d of %d octets is delivered as %d other octets", i, len(msgs[i]), len(ev.copy[i]))
		}
	}
	if !ev.fails && ev.errs != 0 {
		c.Fail("error", "the decoder reports %d errors", ev.errs)
	}
	c.Distinct(stream)
	c.Sample("%v", want)
}
