package core

import (
	"runtime"
	"testing"

	"verif/mon"
)

func TestProp(t *testing.T) {
	defer runtime.KeepAlive(stderr)
	mon.Main(t)
}
