//go:build go1.22

// Package mlist is container/list with every access reported to the race detector.
package mlist

import (
	"container/list"
	"unsafe"

	"github.com/chanjarster/gears/zverif/mc"
)

type Element = list.Element

type List struct{ l list.List }

func New() *List { l := &List{}; l.l.Init(); return l }

func (l *List) r() { mc.ObjR(unsafe.Pointer(l), "list contents") }
func (l *List) w() { mc.ObjW(unsafe.Pointer(l), "list contents") }

func (l *List) Init() *List                             { l.w(); l.l.Init(); return l }
func (l *List) Len() int                                { l.r(); return l.l.Len() }
func (l *List) Front() *Element                         { l.r(); return l.l.Front() }
func (l *List) Back() *Element                          { l.r(); return l.l.Back() }
func (l *List) Remove(e *Element) any                   { l.w(); return l.l.Remove(e) }
func (l *List) PushFront(v any) *Element                { l.w(); return l.l.PushFront(v) }
func (l *List) PushBack(v any) *Element                 { l.w(); return l.l.PushBack(v) }
func (l *List) InsertBefore(v any, m *Element) *Element { l.w(); return l.l.InsertBefore(v, m) }
func (l *List) InsertAfter(v any, m *Element) *Element  { l.w(); return l.l.InsertAfter(v, m) }
func (l *List) MoveToFront(e *Element)                  { l.w(); l.l.MoveToFront(e) }
func (l *List) MoveToBack(e *Element)                   { l.w(); l.l.MoveToBack(e) }
func (l *List) MoveBefore(e, m *Element)                { l.w(); l.l.MoveBefore(e, m) }
func (l *List) MoveAfter(e, m *Element)                 { l.w(); l.l.MoveAfter(e, m) }
func (l *List) PushBackList(o *List)                    { l.w(); o.r(); l.l.PushBackList(&o.l) }
func (l *List) PushFrontList(o *List)                   { l.w(); o.r(); l.l.PushFrontList(&o.l) }
