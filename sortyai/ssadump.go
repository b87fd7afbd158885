package main

import "os"

func (e *Engine) dumpSSA(name string) { e.pkg.Func(name).WriteTo(os.Stdout) }
