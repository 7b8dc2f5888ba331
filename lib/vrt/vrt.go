//go:build go1.21

// Package vrt models the parts of package runtime that concern scheduling.
package vrt

import "github.com/vivint/rothko/zz_verif/vs"

// LockOSThread does nothing.
func LockOSThread() {}

// UnlockOSThread does nothing.
func UnlockOSThread() {}

// Gosched is runtime.Gosched.
func Gosched() { vs.Point("gosched") }
