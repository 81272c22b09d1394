//go:build !linux

package core

import "os/exec"

func startOn(n int, cmd *exec.Cmd) error { return cmd.Start() }
