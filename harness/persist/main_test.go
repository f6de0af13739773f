package persist_test

import (
	"testing"

	"github.com/snivilised/agenor/verif/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }
