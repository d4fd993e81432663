package zzvm

import "math"

func f32bits(v uint32) float32 { return math.Float32frombits(v) }
func f64bits(v uint64) float64 { return math.Float64frombits(v) }
