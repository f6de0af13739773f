package kit

import "github.com/snivilised/agenor/life"

type lifeBegin = life.BeginState
