package main

import (
	"fmt"
	"os"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

func fail(format string, a ...interface{}) {
	fmt.Printf("broken: "+format+"\n", a...)
	os.Exit(1)
}

func must(err errors.Error) {
	if err != nil {
		fail("%v", err.Message)
	}
}

// octets returns what was written.
func octets(w *asn1.ASNWriter) []byte {
	b := make([]byte, w.Len())
	if len(b) > 0 {
		w.Read(b)
	}
	return b
}

func encodeRoot(r *embertree.RootElement) []byte {
	w := &asn1.ASNWriter{}
	must(r.Encode(w))
	return octets(w)
}

func decodeRoot(b []byte) *embertree.RootElement {
	t := embertree.NewTree()
	must(t.Decode(asn1.NewASNReader(b)))
	return t
}

// def is a value of definite length, cat a concatenation.
func def(tag byte, parts ...[]byte) []byte {
	c := cat(parts...)
	n := len(c)
	h := []byte{tag}
	switch {
	case n < 0x80:
		h = append(h, byte(n))
	case n < 0x100:
		h = append(h, 0x81, byte(n))
	case n < 0x10000:
		h = append(h, 0x82, byte(n>>8), byte(n))
	default:
		h = append(h, 0x83, byte(n>>16), byte(n>>8), byte(n))
	}
	return append(h, c...)
}

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func str(s string) []byte { return def(12, []byte(s)) }
func num(n byte) []byte   { return []byte{2, 1, n} }
func oid(n ...byte) []byte {
	return def(13, n)
}

// rootMsg is a message with the elements.
func rootMsg(elements ...[]byte) []byte {
	var c []byte
	for _, e := range elements {
		c = append(c, def(0xa0, e)...)
	}
	return def(0x60, def(0x6b, c))
}

// kids is the children field of an element.
func kids(elements ...[]byte) []byte {
	var c []byte
	for _, e := range elements {
		c = append(c, def(0xa0, e)...)
	}
	return def(0xa2, def(0x64, c))
}

type listener struct{ f func(interface{}, errors.Error) }

func (l *listener) Receive(n interface{}, e errors.Error) { l.f(n, e) }

var _ = embertree.NewTree
