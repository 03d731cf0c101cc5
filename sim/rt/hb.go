package rt

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// VC is a vector clock over tasks.
type VC []uint32

func (v VC) copy() VC { return append(VC(nil), v...) }
func (v VC) tick(i int) VC {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i]++
	return v
}
func (v VC) join(o VC) VC {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}
func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// release publishes the current task's knowledge into *to.
func (s *Sim) release(to *VC) {
	t := s.cur
	if t == nil {
		return
	}
	*to = (*to).join(t.vc)
	t.vc = t.vc.tick(t.ID)
}
func (s *Sim) acquire(from VC) {
	t := s.cur
	if t == nil {
		return
	}
	t.vc = t.vc.join(from)
}

// Order lets harness code order what one task did before what another does next.
type Order struct{ vc VC }

// Publish makes what this task has done known to those that call Observe afterwards.
func (o *Order) Publish() {
	if s := S; s != nil && s.cur != nil && !s.cur.killed {
		s.release(&o.vc)
	}
}

// Observe orders what has been published before what this task does next.
func (o *Order) Observe() {
	if s := S; s != nil && s.cur != nil && !s.cur.killed {
		s.acquire(o.vc)
	}
}

// AtomicSync is put before statements with atomic operations; it orders them all (which can only
// hide races, never invent one).
func AtomicSync() {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		return
	}
	s.point()
	s.acquire(s.atomV)
	s.release(&s.atomV)
}

type access struct {
	task  int
	clock uint32
	site  int32
	name  string
}

// mapState is the access history of one map.
type mapState struct {
	keep  unsafe.Pointer
	write access
	hasW  bool
	reads map[int]access
	typ   string
}

func (s *Sim) mapState(p unsafe.Pointer, typ func() string) *mapState {
	k := uintptr(p)
	m := s.maps[k]
	if m == nil {
		m = &mapState{keep: p, reads: map[int]access{}}
		s.maps[k] = m
	}
	return m
}

func (s *Sim) race(typ string, kind string, a, b access) {
	A := kind
	sa, sb := SiteName(a.site), SiteName(b.site)
	key := typ + sa + sb
	if s.raceK[key] {
		return
	}
	s.raceK[key] = true
	s.races = append(s.races, Race{Map: typ, A: A + ": " + a.name + " at " + sa, B: b.name + " at " + sb})
	s.Logf("unsynchronised access %s %s: %s / %s", typ, A, sa, sb)
}

func (s *Sim) noteRead(p unsafe.Pointer, typ func() string) {
	t := s.cur
	if t == nil || t.killed || p == nil {
		return
	}
	m := s.mapState(p, typ)
	me := access{t.ID, t.vc.at(t.ID), t.Site, t.Name}
	if m.hasW && m.write.task != t.ID && m.write.clock > t.vc.at(m.write.task) {
		s.race(typ(), "write then read", m.write, me)
	}
	m.reads[t.ID] = me
}
func (s *Sim) noteWrite(p unsafe.Pointer, typ func() string) {
	t := s.cur
	if t == nil || t.killed || p == nil {
		return
	}
	m := s.mapState(p, typ)
	me := access{t.ID, t.vc.at(t.ID), t.Site, t.Name}
	if m.hasW && m.write.task != t.ID && m.write.clock > t.vc.at(m.write.task) {
		s.race(typ(), "write then write", m.write, me)
	}
	if len(m.reads) > 0 {
		ids := make([]int, 0, len(m.reads))
		for id := range m.reads {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			r := m.reads[id]
			if id != t.ID && r.clock > t.vc.at(id) {
				s.race(typ(), "read then write", r, me)
			}
		}
		m.reads = map[int]access{}
	}
	m.write, m.hasW = me, true
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR notes a read of m.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && s.cur != nil {
		s.noteRead(mapPtr(m), func() string { return "map " + reflect.TypeOf(m).String() })
	}
	return m
}

// MW notes a write to m.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && s.cur != nil {
		s.noteWrite(mapPtr(m), func() string { return "map " + reflect.TypeOf(m).String() })
	}
	return m
}

// FR notes a read of a field that takes several words.
func FR[T any](p *T, name string) *T {
	if s := S; s != nil && s.cur != nil && p != nil {
		s.noteRead(unsafe.Pointer(p), func() string { return "field " + name })
	}
	return p
}

// FW notes a write to a field that takes several words.
func FW[T any](p *T, name string) {
	if s := S; s != nil && s.cur != nil && p != nil {
		s.noteWrite(unsafe.Pointer(p), func() string { return "field " + name })
	}
}

// MapIter iterates a map in a seeded order, with Go's semantics for entries deleted or added meanwhile.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
	ok   bool
	note func()
}

func keyString(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Struct:
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(keyString(v.Field(i)))
			b.WriteByte('|')
		}
		return b.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%030.10f", v.Float())
	case reflect.Array:
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteString(keyString(v.Index(i)))
			b.WriteByte('|')
		}
		return b.String()
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return v.Elem().Type().String() + keyString(v.Elem())
	}
	return "" // pointers, channels: insertion order is not known; such keys keep the runtime's order
}

// RangeMap3 starts an iteration for the 3-clause form emitted by the instrumenter.
func RangeMap3[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	it := RangeMap(m)
	it.Step()
	return it, it.K, it.V
}

// RangeMap starts an iteration; use Step.
func RangeMap[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		var zero K
		switch any(zero).(type) {
		case string:
			ks := any(it.keys).([]string)
			sort.Strings(ks)
		case int:
			sort.Ints(any(it.keys).([]int))
		default:
			sort.SliceStable(it.keys, func(a, b int) bool {
				return keyString(reflect.ValueOf(&it.keys[a]).Elem()) < keyString(reflect.ValueOf(&it.keys[b]).Elem())
			})
		}
	}
	if s := S; s != nil && s.cur != nil {
		it.note = func() { s.noteRead(mapPtr(m), func() string { return "map " + reflect.TypeOf(m).String() }) }
		if s.trace.MapSeed != 0 {
			for i := len(it.keys) - 1; i > 0; i-- {
				j := s.mix.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
		it.note()
	}
	return it
}

// Valid tells whether the last step produced an entry.
func (it *MapIter[K, V]) Valid() bool { return it.ok }

// Next advances the 3-clause form.
func (it *MapIter[K, V]) Next() (K, V) {
	it.Step()
	return it.K, it.V
}

// Step advances to the next entry that still exists. Leaving the last entry keeps K and V as they were.
func (it *MapIter[K, V]) Step() bool {
	if it.note != nil {
		it.note()
	}
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		it.K, it.V, it.ok = k, v, true
		return true
	}
	it.ok = false
	return false
}

// markDeep notes a read of every map and field of several words reachable from v. With jsonView only what encoding/json would
// visit itself (exported fields, stopping at values with their own marshaller).
func (s *Sim) markDeep(v reflect.Value, jsonView bool, seen map[uintptr]bool, depth int) {
	if !v.IsValid() || depth > 60 {
		return
	}
	if jsonView && depth > 0 && v.Type().Implements(jsonMarshaler) {
		return
	}
	if jsonView && depth > 0 && v.CanAddr() && reflect.PointerTo(v.Type()).Implements(jsonMarshaler) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		s.markDeep(v.Elem(), jsonView, seen, depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			s.markDeep(v.Elem(), jsonView, seen, depth+1)
		}
	case reflect.Struct:
		t := v.Type()
		if strings.HasPrefix(t.PkgPath(), "gozwavesim/") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if jsonView && (t.Field(i).PkgPath != "" && !t.Field(i).Anonymous || t.Field(i).Tag.Get("json") == "-") {
				continue
			}
			f := v.Field(i)
			switch f.Kind() {
			case reflect.String, reflect.Slice, reflect.Interface:
				if f.CanAddr() {
					s.noteRead(unsafe.Pointer(f.UnsafeAddr()), func() string { return "field " + t.Name() + "." + t.Field(i).Name })
				}
			}
			s.markDeep(f, jsonView, seen, depth+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.markDeep(v.Index(i), jsonView, seen, depth+1)
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		s.noteRead(v.UnsafePointer(), func() string { return "map " + v.Type().String() })
		it := v.MapRange()
		for it.Next() {
			s.markDeep(it.Value(), jsonView, seen, depth+1)
		}
	}
}

// NoteJSONRead lets harness code that serialises library values account for the maps it reads.
func NoteJSONRead(v interface{}) {
	if s := S; s != nil && s.cur != nil {
		s.markDeep(reflect.ValueOf(v), true, map[uintptr]bool{}, 0)
	}
}

// Races found so far.
func (s *Sim) Races() []Race { return s.races }

// AtomicV is wrapped around atomic operations that return a value.
func AtomicV[T any](v T) T {
	AtomicSync()
	return v
}

// Zero resets a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
