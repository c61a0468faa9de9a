package run

import (
	"testing"

	"verif.local/mc/mc"
	_ "verif.local/mc/props"
)

func TestMC(t *testing.T) { mc.Main(t) }
