package rt

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"iter"
	"maps"
	"reflect"
	"time"

	"github.com/tarm/serial"
)

var jsonMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()

// JSONMarshal notes the maps the encoder reads, then encodes.
func JSONMarshal(v any) ([]byte, error) {
	if S != nil {
		S.point()
	}
	NoteJSONRead(v)
	return json.Marshal(v)
}
func JSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	if S != nil {
		S.point()
	}
	NoteJSONRead(v)
	return json.MarshalIndent(v, prefix, indent)
}

// JSONEncoder is json.Encoder.
type JSONEncoder struct{ *json.Encoder }

func JSONNewEncoder(w io.Writer) *JSONEncoder { return &JSONEncoder{json.NewEncoder(w)} }
func (e *JSONEncoder) Encode(v any) error {
	NoteJSONRead(v)
	return e.Encoder.Encode(v)
}

// DeepEqual is reflect.DeepEqual.
func DeepEqual(a, b any) bool {
	if s := S; s != nil && s.cur != nil {
		s.point()
		s.markDeep(reflect.ValueOf(a), false, map[uintptr]bool{}, 0)
		s.markDeep(reflect.ValueOf(b), false, map[uintptr]bool{}, 0)
	}
	return reflect.DeepEqual(a, b)
}

var randSrc = NewRand(1)

func RandInt() int       { return int(randSrc.Uint64() >> 1) }
func RandIntn(n int) int { mustPos(n); return randSrc.Intn(n) }
func RandInt63() int64   { return int64(randSrc.Uint64() >> 1) }
func RandInt63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(randSrc.Uint64()>>1) % n
}
func RandInt31() int32         { return int32(randSrc.Uint64() >> 33) }
func RandInt31n(n int32) int32 { mustPos(int(n)); return int32(randSrc.Intn(int(n))) }
func RandUint32() uint32       { return uint32(randSrc.Uint64() >> 32) }
func RandUint64() uint64       { return randSrc.Uint64() }
func RandFloat64() float64     { return randSrc.Float64() }
func RandSeed(int64)           {}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, randSrc.Intn(i+1))
	}
}
func RandRead(p []byte) (int, error) { return randSrc.Read(p) }
func mustPos(n int) {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
}

type randReader struct{}

func (randReader) Read(p []byte) (int, error) { return randSrc.Read(p) }

// RandReader is crypto/rand.Reader.
var RandReader io.Reader = randReader{}

// SerialPort is serial.Port.
type SerialPort struct{ rw io.ReadWriteCloser }

func (p *SerialPort) Read(b []byte) (int, error)  { return p.rw.Read(b) }
func (p *SerialPort) Write(b []byte) (int, error) { return p.rw.Write(b) }
func (p *SerialPort) Close() error                { return p.rw.Close() }
func (p *SerialPort) Flush() error                { return nil }

// SerialOpenPort is serial.OpenPort.
func SerialOpenPort(c *serial.Config) (*SerialPort, error) {
	s := S
	if s == nil || s.SerialOpener == nil {
		return nil, errors.New("no such port")
	}
	rw, err := s.SerialOpener(c.Name, c.Baud)
	if err != nil {
		return nil, err
	}
	return &SerialPort{rw}, nil
}

// Contexts with simulated channels and timers.
type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     []*simCtx
	tm       *Timer
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { return c.err }
func (c *simCtx) Value(k any) any       { return c.parent.Value(k) }
func (c *simCtx) cancel(err error) {
	if c.err != nil || S == nil || S.cur != nil && S.cur.killed {
		return
	}
	c.err = err
	S.closeChan(S.ch(chanPtr((<-chan struct{})(c.done)), 0))
	if c.tm != nil && c.tm.t != nil {
		S.stop(c.tm.t)
	}
	for _, k := range c.kids {
		k.cancel(err)
	}
}
func newCtx(parent context.Context) *simCtx {
	c := &simCtx{parent: parent, done: make(chan struct{})}
	for p := parent; p != nil; {
		if sc, ok := p.(*simCtx); ok {
			if sc.err != nil {
				c.cancel(sc.err)
			} else {
				sc.kids = append(sc.kids, c)
			}
			break
		}
		break
	}
	return c
}
func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if S != nil {
			S.point()
		}
		c.cancel(context.Canceled)
	}
}
func CtxWithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if d, ok := parent.Deadline(); !ok || at.Before(d) {
		c.deadline, c.hasDL = at, true
		if c.err == nil {
			c.tm = AfterFunc(Until(at), func() { c.cancel(context.DeadlineExceeded) })
		}
	}
	return c, func() { c.cancel(context.Canceled) }
}
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(parent, Now().Add(d))
}

var _ = bytes.NewReader

// The package maps.

func MapsClone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(MR(m)) }
func MapsCopy[D ~map[K]V, M ~map[K]V, K comparable, V any](dst D, src M) {
	MR(src)
	maps.Copy(MW(dst), src)
}
func MapsEqual[A, B ~map[K]V, K, V comparable](a A, b B) bool { return maps.Equal(MR(a), MR(b)) }
func MapsDeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for it := RangeMap(m); it.Step(); {
		if del(it.K, it.V) {
			delete(MW(m), it.K)
		}
	}
}
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := RangeMap(m); it.Step(); {
			if !yield(it.K) {
				return
			}
		}
	}
}
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := RangeMap(m); it.Step(); {
			if !yield(it.V) {
				return
			}
		}
	}
}
