package pub

import (
	"os"
	"testing"

	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/li18ngo"
)

func TestMain(m *testing.M) {
	if err := li18ngo.Use(func(o *li18ngo.UseOptions) {
		o.From.Sources = li18ngo.TranslationFiles{
			locale.SourceID: li18ngo.TranslationSource{Name: "agenor"},
		}
	}); err != nil {
		panic(err)
	}

	os.Exit(m.Run())
}
