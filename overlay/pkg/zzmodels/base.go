// Package zzmodels replaces parts of the outside world (operating system, network, database,
// reflection-heavy library code) during symbolic execution. It is ordinary Go code interpreted by gosymex;
// "//sym:redirect KEY" above a function makes it stand in for KEY.
package zzmodels

// Intercepted by the engine.
func IsComparable(v interface{}) bool     { return true }
func Unsupported(msg string)              {}
func SyncPoint()                          {}
func DeepCopy(v interface{}) interface{}  { return v }
