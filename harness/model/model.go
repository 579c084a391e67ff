// Package model holds Go models of library functions that the symbolic engine
// executes in place of the originals (they rely on the runtime or on reflection).
package model

import (
	"encoding/binary"
	"io"
	"io/fs"
	"os"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// intercepted by the engine
func asTarget(err error, target any) bool { return false }
func swapAny(s any, i, j int)             {}
func derefAny(p any) any                  { return nil }
func setAny(p any, v any) bool            { return false }
func binWidth(p any, i int) int           { return 0 }
func binSet(p any, i int, v uint64)       {}

// PoolGet: a pool may always be empty.
func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func OnceDo(o *sync.Once, f func()) {
	p := (*uint32)(unsafe.Pointer(o))
	if atomic.LoadUint32(p) != 0 {
		return
	}
	defer atomic.StoreUint32(p, 1)
	f()
}

func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err == nil {
					continue
				}
				if ErrorsAs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func Swapper(s any) func(i, j int) {
	return func(i, j int) { swapAny(s, i, j) }
}

// BinaryRead reads integers and structures of integers.
func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	size := 0
	for i := 0; binWidth(data, i) > 0; i++ {
		size += binWidth(data, i)
	}
	b := make([]byte, size)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	for i := 0; binWidth(data, i) > 0; i++ {
		w := binWidth(data, i)
		switch w {
		case 1:
			binSet(data, i, uint64(b[0]))
		case 2:
			binSet(data, i, uint64(order.Uint16(b)))
		case 4:
			binSet(data, i, uint64(order.Uint32(b)))
		case 8:
			binSet(data, i, order.Uint64(b))
		}
		b = b[w:]
	}
	return nil
}

// OSOpen: of the files under /dev there is only /dev/null.
func OSOpen(name string) (*os.File, error) {
	if name != "/dev/null" {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return new(os.File), nil
}

func OSFileRead(f *os.File, b []byte) (int, error) { return 0, io.EOF }

func OSFileClose(f *os.File) error { return nil }

// TimeNow is the clock where the harness sets none.
func TimeNow() time.Time { return time.Unix(1700000000, 0).UTC() }
