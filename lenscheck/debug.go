package main

import "fmt"

func debugProv(w *World) {
	for _, fc := range w.fsCalls() {
		p := w.prov(fc.arg, nil)
		fmt.Printf("%s %s %s remove=%v\n", w.Pos(fc.call.Pos()), localName(fc.call.Parent()), fc.name, fc.remove)
		for _, n := range p.names() {
			fmt.Println("      ", n)
		}
	}
}
