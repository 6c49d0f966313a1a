package harness

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_SCENARIO") == "" {
		os.Exit(Drive())
	}
	os.Exit(m.Run())
}

func TestChild(t *testing.T) { RunChild(t) }
