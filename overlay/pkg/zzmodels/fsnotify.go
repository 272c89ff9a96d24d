package zzmodels

import (
	"errors"
	"runtime"

	"github.com/fsnotify/fsnotify"
)

// File watchers: events are delivered by Notify only.

type watch struct {
	paths  map[string]bool
	closed bool
}

var watches = map[*fsnotify.Watcher]*watch{}
var watchers []*fsnotify.Watcher

//sym:redirect github.com/fsnotify/fsnotify.NewWatcher
func NewWatcher() (*fsnotify.Watcher, error) {
	if err := reading("watch", ""); err != nil {
		return nil, err
	}
	w := &fsnotify.Watcher{Events: make(chan fsnotify.Event), Errors: make(chan error)}
	watches[w] = &watch{paths: map[string]bool{}}
	watchers = append(watchers, w)
	return w, nil
}

//sym:redirect (*github.com/fsnotify/fsnotify.Watcher).Add
func WatcherAdd(w *fsnotify.Watcher, name string) error {
	if err := reading("watch", name); err != nil {
		return err
	}
	x := watches[w]
	if x.closed {
		return errors.New("inotify instance already closed")
	}
	if _, err := find(name); err != nil {
		return err
	}
	x.paths[name] = true
	return nil
}

//sym:redirect (*github.com/fsnotify/fsnotify.Watcher).Remove
func WatcherRemove(w *fsnotify.Watcher, name string) error {
	x := watches[w]
	if !x.paths[name] {
		return errors.New("can't remove non-existent inotify watch for: " + name)
	}
	delete(x.paths, name)
	return nil
}

//sym:redirect (*github.com/fsnotify/fsnotify.Watcher).Close
func WatcherClose(w *fsnotify.Watcher) error {
	x := watches[w]
	if !x.closed {
		x.closed = true
		close(w.Events)
		close(w.Errors)
	}
	return nil
}

// Modify rewrites the first byte of a file with itself and reports the change to its watchers.
//
//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.Modify
func Modify(path string) {
	if _, err := find(path); err != nil {
		Unsupported("modifying a file that does not exist")
	}
	for _, w := range watchers {
		x := watches[w]
		if x.closed || !x.paths[path] {
			continue
		}
		Settle()
		select {
		case w.Events <- fsnotify.Event{Name: path, Op: fsnotify.Write}:
		default: // nobody asks for the events
		}
	}
	Settle()
}

// Settle: each of the other goroutines runs until it waits.
//
//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.Settle
func Settle() {
	for i := 0; i < 8; i++ {
		runtime.Gosched()
	}
}

// OpenWatchers counts the watchers that are not closed.
//
//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.OpenWatchers
func OpenWatchers() int {
	n := 0
	for _, w := range watchers {
		if !watches[w].closed {
			n++
		}
	}
	return n
}
