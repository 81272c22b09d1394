// Command cmd is the property checker.
package main

import (
	"os"

	"github.com/mearaj/bips/zzverif/checks"
	"github.com/mearaj/bips/zzverif/core"
)

func main() {
	if r := os.Getenv("VERIF_FRESH_OP"); r != "" {
		checks.FreshOp(r)
		return
	}
	if os.Getenv("VERIF_IDLE") != "" {
		checks.Idle()
		return
	}
	if os.Getenv("VERIF_SERVE") != "" {
		checks.Serve()
		return
	}
	if f := os.Getenv("VERIF_DICT_BASE"); f != "" {
		if err := checks.WriteDictBase(f); err != nil {
			panic(err)
		}
		return
	}
	core.RegisterFlags()
	os.Exit(core.Main(checks.Props()))
}
