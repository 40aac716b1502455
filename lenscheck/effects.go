package main

import (
	"golang.org/x/tools/go/ssa"
)

// File system effects of external functions: which arguments name paths that are created, changed or removed.

type fsEffect struct {
	create []int // path arguments that are created or overwritten
	remove []int // path arguments that disappear
}

var fsEffects = map[string]fsEffect{
	"os.WriteFile": {create: []int{0}}, "os.Create": {create: []int{0}}, "os.OpenFile": {create: []int{0}},
	"os.Mkdir": {create: []int{0}}, "os.MkdirAll": {create: []int{0}}, "os.Chmod": {create: []int{0}}, "os.Chown": {create: []int{0}},
	"os.Truncate": {create: []int{0}}, "os.Chtimes": {create: []int{0}}, "os.Symlink": {create: []int{1}}, "os.Link": {create: []int{1}},
	"os.Rename": {create: []int{1}, remove: []int{0}}, "os.Remove": {remove: []int{0}}, "os.RemoveAll": {remove: []int{0}},
	"os.CopyFS":           {create: []int{0}},
	"io/ioutil.WriteFile": {create: []int{0}}, "syscall.Unlink": {remove: []int{0}}, "syscall.Rename": {create: []int{1}, remove: []int{0}},
}

type fsCall struct {
	call   ssa.CallInstruction
	arg    ssa.Value
	remove bool
	name   string
}

func (w *World) fsCalls() []fsCall {
	var out []fsCall
	for _, f := range w.Fns {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			e, ok := fsEffects[calleeName(c)]
			if !ok {
				return
			}
			for _, i := range e.create {
				out = append(out, fsCall{c, c.Common().Args[i], false, calleeName(c)})
			}
			for _, i := range e.remove {
				out = append(out, fsCall{c, c.Common().Args[i], true, calleeName(c)})
			}
		})
	}
	return out
}
