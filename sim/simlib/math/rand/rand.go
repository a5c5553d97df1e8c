// Package rand draws from the run's workload-independent fault stream.
package rand

import (
	realrand "math/rand"

	"verif/sim/simrt"
)

type (
	Rand   = realrand.Rand
	Source = realrand.Source
)

type src struct{}

func (src) Int63() int64 {
	s := simrt.Active()
	if s == nil {
		return 4
	}
	return int64(s.Src.F.U32())<<32 ^ int64(s.Src.F.U32())
}
func (src) Seed(int64) {}

var std = realrand.New(src{})

func New(s Source) *Rand              { return realrand.New(s) }
func NewSource(seed int64) Source     { return realrand.NewSource(seed) }
func Seed(int64)                      {}
func Int() int                        { return std.Int() }
func Intn(n int) int                  { return std.Intn(n) }
func Int31() int32                    { return std.Int31() }
func Int31n(n int32) int32            { return std.Int31n(n) }
func Int63() int64                    { return std.Int63() }
func Int63n(n int64) int64            { return std.Int63n(n) }
func Uint32() uint32                  { return std.Uint32() }
func Uint64() uint64                  { return std.Uint64() }
func Float32() float32                { return std.Float32() }
func Float64() float64                { return std.Float64() }
func NormFloat64() float64            { return std.NormFloat64() }
func Perm(n int) []int                { return std.Perm(n) }
func Shuffle(n int, f func(i, j int)) { std.Shuffle(n, f) }
func Read(b []byte) (int, error)      { return std.Read(b) }
