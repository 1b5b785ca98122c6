// Package rand stands in for math/rand and math/rand/v2 in the instrumented copy. All
// outcomes derive from one controlled stream of 32-bit draws.
package rand

import "verif.local/mc/vs"

func u32() uint32 { return vs.Draw32() }

func Uint32() uint32 { return u32() }

func Uint64() uint64 { return uint64(u32())<<32 | uint64(u32()) }
func Int() int       { return int(uint(Int63()) << 1 >> 1) }
func Int31() int32   { return int32(u32() & (1<<31 - 1)) }
func Int63() int64   { return int64(Uint64() & (1<<63 - 1)) }
func Uint32n(n uint32) uint32 {
	return uint32(uint64(u32()) * uint64(n) >> 32)
}
func Uint64n(n uint64) uint64 { return Uint64() % n }
func Int63n(n int64) int64    { return Int63() % n }
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(Uint32n(uint32(n)))
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Uint32n(uint32(n)))
}
func Float64() float64        { return float64(u32()>>1) / (1 << 31) }
func Float32() float32        { return float32(u32()>>8) / (1 << 24) }
func IntN(n int) int          { return Intn(n) }
func Int32N(n int32) int32    { return Int31n(n) }
func Int64N(n int64) int64    { return Int63n(n) }
func Uint32N(n uint32) uint32 { return Uint32n(n) }
func Uint64N(n uint64) uint64 { return Uint64n(n) }
func UintN(n uint) uint       { return uint(Uint64n(uint64(n))) }
func Int32() int32            { return Int31() }
func Int64() int64            { return Int63() }
func Seed(int64)              {}
