// Command replay runs one harness natively; the registry file is generated.
package main

import (
	"math/rand"
	"verifharness/sym"
)

var registry = map[string]func(){}

func main() {
	rand.VerifHook = sym.Hook
	rand.VerifSeed = sym.HookSeed
	sym.Main(registry)
}
