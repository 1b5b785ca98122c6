package vs

import (
	"encoding/binary"
	"reflect"
	"strings"
	"unsafe"
)

// Canon walks everything reachable from a set and from the package-level
// variables of the code under test and renders it with addresses replaced by
// the order of the visit. Equal renderings mean isomorphic memory, hence equal
// future behaviour (given equal draws of the random source and equal calls).
// What the walk cannot see into (functions, maps, unknown unsafe pointers) is
// rendered by address, which never merges states that differ.
type Canon struct {
	Buf     []byte
	ids     map[unsafe.Pointer]int
	Objects int // heap objects reached
	Opaque  int // pointers that could not be followed
	// ByType, if not nil, counts the objects reached by type.
	ByType map[reflect.Type]int
	pools  []reflect.Value
	pooled bool // in what only a sync.Pool holds: a garbage collection frees it
}

// Of renders root (a pointer) and the registered globals.
func (c *Canon) Of(root any) []byte {
	c.Buf = c.Buf[:0]
	if c.ids == nil {
		c.ids = map[unsafe.Pointer]int{}
	}
	clear(c.ids)
	c.Objects, c.Opaque = 0, 0
	clear(c.ByType)
	c.pools, c.pooled = c.pools[:0], false
	c.walk(reflect.ValueOf(root), 0)
	for i := range globals {
		c.Buf = append(c.Buf, '|')
		c.walk(reflect.ValueOf(globals[i].ptr).Elem(), 0)
	}
	c.pooled = true
	for i := 0; i < len(c.pools); i++ {
		c.Buf = append(c.Buf, 'p')
		c.fields(c.pools[i], 0)
	}
	return c.Buf
}

func (c *Canon) fields(v reflect.Value, depth int) {
	for i := 0; i < v.NumField(); i++ {
		c.walk(v.Field(i), depth)
	}
}

func (c *Canon) num(x uint64) { c.Buf = binary.AppendUvarint(c.Buf, x) }

func (c *Canon) ptr(p unsafe.Pointer, t reflect.Type, depth int) {
	if p == nil {
		c.Buf = append(c.Buf, 0)
		return
	}
	if id, ok := c.ids[p]; ok {
		c.Buf = append(c.Buf, 1)
		c.num(uint64(id))
		return
	}
	if t == nil {
		c.Opaque++
		c.Buf = append(c.Buf, 2)
		c.num(uint64(uintptr(p)))
		return
	}
	c.ids[p] = len(c.ids)
	if !c.pooled {
		c.Objects++
		if c.ByType != nil {
			c.ByType[t]++
		}
	}
	c.Buf = append(c.Buf, 3)
	c.walk(reflect.NewAt(t, p).Elem(), depth+1)
}

func (c *Canon) walk(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			c.Buf = append(c.Buf, 1)
		} else {
			c.Buf = append(c.Buf, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		c.num(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		c.num(v.Uint())
	case reflect.Float32, reflect.Float64:
		c.num(uint64(int64(v.Float() * 1024)))
		if v.Float() != v.Float() {
			c.Buf = append(c.Buf, 'n')
		}
	case reflect.String:
		c.num(uint64(v.Len()))
		c.Buf = append(c.Buf, v.String()...)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i), depth)
		}
	case reflect.Struct:
		if t := v.Type(); t.Name() == "Pool" && strings.HasSuffix(t.PkgPath(), "shim/sync") {
			c.pools = append(c.pools, v)
			return
		}
		c.fields(v, depth)
	case reflect.Slice:
		c.num(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i), depth)
		}
	case reflect.Pointer:
		c.ptr(v.UnsafePointer(), v.Type().Elem(), depth)
	case reflect.UnsafePointer:
		p := v.UnsafePointer()
		c.ptr(p, heapTypes[p], depth)
	case reflect.Interface:
		if v.IsNil() {
			c.Buf = append(c.Buf, 0)
			return
		}
		c.Buf = append(c.Buf, v.Elem().Type().String()...)
		c.walk(v.Elem(), depth)
	case reflect.Func:
		if v.IsNil() {
			c.Buf = append(c.Buf, 0)
		} else {
			c.num(uint64(v.Pointer()))
		}
	default:
		if v.Kind() == reflect.Map && v.Len() == 0 {
			c.Buf = append(c.Buf, 0)
			return
		}
		c.Opaque++
		c.num(uint64(v.Pointer()))
	}
}
