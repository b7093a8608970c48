package c01

import "math"

func f32(b uint32) float32 { return math.Float32frombits(b) }
func f64(b uint64) float64 { return math.Float64frombits(b) }
func b32(f float32) uint32 { return math.Float32bits(f) }
func b64(f float64) uint64 { return math.Float64bits(f) }
