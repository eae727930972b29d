//go:build !linux

package eng

import "os/exec"

func dieWithParent(cmd *exec.Cmd) {}
