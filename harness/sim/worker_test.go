package sim

import (
	"os"
	"testing"
)

func TestWorker(t *testing.T) {
	if os.Getenv("VP_PROP") == "" {
		t.Skip("not started by the check")
	}
	RunWorker(t)
}

func TestChild(t *testing.T) {
	if os.Getenv("VP_CHILD") == "" {
		t.Skip("not started by the check")
	}
	RunChild(t)
}
