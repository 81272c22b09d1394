//go:build !linux

package checks

import "github.com/mearaj/bips/zzverif/core"

type x08 struct{}

var specX08 = core.Spec[x08]{Name: "traces"}

func Idle() {}
