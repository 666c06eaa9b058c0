//go:build go1.22

// Package mtime replaces the clock and the timers of package time in rewritten code.
package mtime

import (
	"time"

	"github.com/chanjarster/gears/zverif/mc"
)

type (
	Timer  = mc.Timer
	Ticker = mc.Ticker
)

func Now() time.Time                             { return mc.Now() }
func Since(t time.Time) time.Duration            { return mc.Now().Sub(t) }
func Until(t time.Time) time.Duration            { return t.Sub(mc.Now()) }
func Sleep(d time.Duration)                      { mc.Sleep(d) }
func After(d time.Duration) <-chan time.Time     { return mc.After(d) }
func AfterFunc(d time.Duration, f func()) *Timer { return mc.AfterFunc(d, f) }
func NewTimer(d time.Duration) *Timer            { return mc.NewTimer(d) }
func NewTicker(d time.Duration) *Ticker          { return mc.NewTicker(d) }
func Tick(d time.Duration) <-chan time.Time      { return mc.Tick(d) }
