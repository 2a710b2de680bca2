// Package checks holds one check per property.
package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verif/harness/ref"
	"verif/harness/rt"
)

func es(e errors.Error) string { return ref.Err(e) }

// decodeElement runs the library's decoder on one element.
func decodeElement(b []byte) (*embertree.Element, string) {
	l, e := embertree.DecodeElement(asn1.NewASNReader(b))
	if e != nil {
		return nil, es(e)
	}
	if l == nil {
		return nil, "no element and no error"
	}
	return l, ""
}

// decodeRoot feeds a message to a tree.
func decodeRoot(root *embertree.RootElement, b []byte) string {
	e := root.Decode(asn1.NewASNReader(b))
	if e != nil {
		return "error: " + es(e)
	}
	return ""
}

// canon adds the default type and mode that the decoder fills in for a matrix
// whose contents lack them.
func canon(e *ref.Elem) *ref.Elem {
	c := e.Clone()
	canonIn(c)
	return c
}

func canonIn(e *ref.Elem) {
	if e.Kind == ref.Matrix && e.C != nil {
		for _, n := range []int{2, 3} {
			if _, ok := e.C.Fields[n]; !ok {
				e.C.Fields[n] = ref.Val{T: 'i'}
			}
		}
	}
	for _, k := range e.Kids {
		canonIn(k)
	}
}

func canonAll(es []*ref.Elem) []*ref.Elem {
	var out []*ref.Elem
	for _, e := range es {
		out = append(out, canon(e))
	}
	return out
}

func show(es []*ref.Elem) string {
	var s strings.Builder
	for _, e := range es {
		s.WriteString(e.String() + "\n")
	}
	return s.String()
}

// snapshot reads a tree and fails the case if that shows an inconsistency.
func snapshot(c *rt.Ctx, root *embertree.RootElement) []*ref.Elem {
	got, err := ref.RootFromLib(root)
	if err != nil {
		c.Fail("inconsistent", "the tree is inconsistent: %v", err)
	}
	return got
}

func gen(r *rt.Rand) *ref.Gen {
	g := &ref.Gen{R: r, MaxKids: r.Range(1, 4), MaxDepth: r.Range(1, 5), Budget: r.Range(1, 40)}
	if r.P(1, 30) {
		g.Big, g.Left = ref.Bigs[r.Intn(len(ref.Bigs))], r.Range(1, 2)
		g.Budget = min(g.Budget, 6)
	}
	return g
}

func short(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s… (%d octets)", s[:200], len(s))
	}
	return s
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
