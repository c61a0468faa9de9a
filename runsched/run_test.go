package runsched

import (
	"testing"

	"verif.local/mc/mc"
	_ "verif.local/mc/schedprops"
)

func TestMC(t *testing.T) { mc.Main(t) }
