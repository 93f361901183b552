package main

import (
	"sort"
	"sync"
	"syscall"
)

func sortStrings(l []string) { sort.Strings(l) }

// lazySet builds its set once.
type lazySet struct {
	mk   func() c24set
	once sync.Once
	s    c24set
}

func (l *lazySet) get() c24set { l.once.Do(func() { l.s = l.mk() }); return l.s }

var rxOnce sync.Once

func onceString(f func() string) func() string { return sync.OnceValue(f) }

func mkfifo(p string) { syscall.Mkfifo(p, 0644) }
