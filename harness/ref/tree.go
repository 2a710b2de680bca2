package ref

// Tree is the sequential model of a client tree: what the messages received so
// far say.
type Tree struct {
	Top map[int]*Item
}

type Item struct {
	E    *Elem // Kids unused
	Kids map[int]*Item
	Path []int32
}

func NewTreeModel() *Tree { return &Tree{Top: map[int]*Item{}} }

func newItem(e *Elem, path []int32) *Item {
	it := &Item{E: e.Clone(), Kids: map[int]*Item{}, Path: path}
	it.E.Kids = nil
	for _, k := range e.Kids {
		it.Kids[k.Number] = newItem(k, append(append([]int32{}, path...), int32(k.Number)))
	}
	return it
}

// Concerned lists the already known elements a message names, and those that
// gain or update a child through it.
type Concerned map[string]bool

func (it *Item) update(e *Elem, c Concerned) {
	c[PathString(it.Path)] = true
	if e.C != nil {
		it.E.C = e.C.Clone()
	}
	if len(e.Targets) > 0 {
		it.E.Targets = append([]int32{}, e.Targets...)
	}
	if len(e.Sources) > 0 {
		it.E.Sources = append([]int32{}, e.Sources...)
	}
	for _, n := range e.Conns {
		found := false
		for i := range it.E.Conns {
			if it.E.Conns[i].Target == n.Target {
				it.E.Conns[i] = n
				found = true
			}
		}
		if !found {
			it.E.Conns = append(it.E.Conns, n)
		}
	}
	for _, k := range e.Kids {
		if old := it.Kids[k.Number]; old != nil {
			old.update(k, c)
		} else {
			it.Kids[k.Number] = newItem(k, append(append([]int32{}, it.Path...), int32(k.Number)))
		}
	}
}

// Apply applies a message and tells which known elements it concerns.
func (t *Tree) Apply(es []*Elem) Concerned {
	c := Concerned{}
	for _, e := range es {
		if e.Qual && len(e.Path) > 1 {
			parent := t.Find(e.Path[:len(e.Path)-1])
			if parent == nil {
				continue // its parent is unknown
			}
			c[PathString(parent.Path)] = true
			if old := parent.Kids[e.Number]; old != nil {
				old.update(e, c)
			} else {
				parent.Kids[e.Number] = newItem(e, append([]int32{}, e.Path...))
			}
			continue
		}
		if old := t.Top[e.Number]; old != nil {
			old.update(e, c)
		} else {
			t.Top[e.Number] = newItem(e, []int32{int32(e.Number)})
		}
	}
	return c
}

// Find is nil if there is no element at path.
func (t *Tree) Find(path []int32) *Item {
	if len(path) == 0 {
		return nil
	}
	it := t.Top[int(path[0])]
	for _, n := range path[1:] {
		if it == nil {
			return nil
		}
		it = it.Kids[int(n)]
	}
	return it
}

func (it *Item) Elem() *Elem {
	e := it.E.Clone()
	for _, k := range it.Kids {
		e.Kids = append(e.Kids, k.Elem())
	}
	return e
}

func (t *Tree) Elems() []*Elem {
	var out []*Elem
	for _, it := range t.Top {
		out = append(out, it.Elem())
	}
	return out
}

// Items lists all elements.
func (t *Tree) Items() []*Item {
	var out []*Item
	var walk func(it *Item)
	walk = func(it *Item) {
		out = append(out, it)
		for _, k := range it.Kids {
			walk(k)
		}
	}
	for _, it := range t.Top {
		walk(it)
	}
	return out
}
