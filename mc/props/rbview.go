package props

import (
	"reflect"
	"unsafe"

	"github.com/liyue201/gostl/ds/rbtree"
)

// rbView looks into a tree by reflection: it finds the colour of the nodes,
// so that the validity test of the tree can be confronted with trees that
// break the rules. Where the layout is not the expected one it does nothing.
type rbView struct {
	ok                 bool
	color, left, right uintptr
	root               uintptr
	red                bool
}

func newRbView() *rbView {
	v := &rbView{}
	t := reflect.TypeOf(treeNode{})
	tt := reflect.TypeOf(rbtree.RbTree[Key, Val]{})
	pt := reflect.TypeOf((*treeNode)(nil))
	f := func(t reflect.Type, name string, ft func(reflect.Type) bool, to *uintptr) bool {
		x, ok := t.FieldByName(name)
		if !ok || !ft(x.Type) {
			return false
		}
		*to = x.Offset
		return true
	}
	isPtr := func(x reflect.Type) bool { return x == pt }
	v.ok = f(t, "left", isPtr, &v.left) && f(t, "right", isPtr, &v.right) && f(tt, "root", isPtr, &v.root) &&
		f(t, "color", func(x reflect.Type) bool { return x.Kind() == reflect.Bool }, &v.color)
	return v
}

func (v *rbView) child(n *treeNode, off uintptr) **treeNode {
	return (**treeNode)(unsafe.Add(unsafe.Pointer(n), off))
}
func (v *rbView) col(n *treeNode) *bool { return (*bool)(unsafe.Add(unsafe.Pointer(n), v.color)) }

// rules says whether the tree below n satisfies the red-black rules.
func (v *rbView) rules(n *treeNode, root bool) (black int, ok bool) {
	if n == nil {
		return 1, true
	}
	l, r := *v.child(n, v.left), *v.child(n, v.right)
	bl, o1 := v.rules(l, false)
	br, o2 := v.rules(r, false)
	if !o1 || !o2 || bl != br {
		return 0, false
	}
	if !*v.col(n) {
		if root || l != nil && !*v.col(l) || r != nil && !*v.col(r) {
			return 0, false
		}
		return bl, true
	}
	return bl + 1, true
}

// check compares the validity test of the tree with the rules on the tree, on
// the tree with each one and each two of its nodes recoloured, and on the tree with each subtree cut off.
func (v *rbView) check(s *ordM) error {
	t, ok := s.a.obj.(*rbtree.RbTree[Key, Val])
	if !v.ok || !ok {
		return nil
	}
	root := *(**treeNode)(unsafe.Add(unsafe.Pointer(t), v.root))
	agree := func(what string) error {
		_, want := v.rules(root, true)
		got, err := t.IsRbTree()
		if got != want || (err == nil) != got {
			return errf("IsRbTree() = %v (%v) on a tree of %d entries %s, the rules say %v", got, err, len(s.m), what, want)
		}
		return nil
	}
	if _, ok := v.rules(root, true); !ok {
		return errf("the tree of %d entries breaks the red-black rules", len(s.m))
	}
	var nodes []*treeNode
	var walk func(n *treeNode)
	walk = func(n *treeNode) {
		if n != nil {
			nodes = append(nodes, n)
			walk(*v.child(n, v.left))
			walk(*v.child(n, v.right))
		}
	}
	walk(root)
	if err := agree("as built"); err != nil {
		return err
	}
	for i, n := range nodes {
		c := v.col(n)
		*c = !*c
		err := agree("with one node recoloured")
		for _, m := range nodes[:i] {
			if err != nil {
				break
			}
			d := v.col(m)
			*d = !*d
			err = agree("with two nodes recoloured")
			*d = !*d
		}
		*c = !*c
		if err != nil {
			return err
		}
		for _, off := range []uintptr{v.left, v.right} {
			p := v.child(n, off)
			if x := *p; x != nil {
				*p = nil
				err := agree("with a subtree cut off")
				*p = x
				if err != nil {
					return err
				}
			}
		}
	}
	return nil
}
