package colls

import (
	"testing"

	"axverif/core"
)

func TestDrive(t *testing.T) { core.Main(t, Drivers) }
