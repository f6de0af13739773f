From 8b543d8f78b14b532c478e8d49c8d3168f179911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 01/46] fix: SkipDir and SkipAll take effect as documented

SkipAll ends the traversal rather than just being ignored, SkipDir for a file
skips the remaining items of its directory only, and neither of them is
reported to the caller as an error.
---
 internal/kernel/mediator.go        | 14 ++++++-
 internal/kernel/navigator-agent.go | 61 ++++++++++++------------------
 2 files changed, 36 insertions(+), 39 deletions(-)

diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index dfcd334..0c00a0f 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -120,7 +120,11 @@ func (m *mediator) Navigate(ctx context.Context) (result *enclave.KernelResult,
 		magnitude:    m.facade.Magnitude(),
 	})
 
-	if !stock.IsBenignError(err) && m.o != nil {
+	if stock.IsBenignError(err) {
+		return result, nil
+	}
+
+	if m.o != nil {
 		m.o.Monitor.Log.Error(err.Error())
 	}
 
@@ -144,13 +148,19 @@ func (m *mediator) Snooze(ctx context.Context,
 ) (result *enclave.KernelResult, err error) {
 	m.tree = active.Tree
 
-	return m.impl.Top(ctx, &navigationStatic{
+	result, err = m.impl.Top(ctx, &navigationStatic{
 		mediator:     m,
 		tree:         active.Tree,
 		calc:         m.resources.Forest.T.Calc(),
 		subscription: m.subscription,
 		magnitude:    m.facade.Magnitude(),
 	})
+
+	if stock.IsBenignError(err) {
+		return result, nil
+	}
+
+	return result, err
 }
 
 func (m *mediator) Bye(result core.TraverseResult) {
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9a0b04e..7f0ea53 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -155,46 +155,33 @@ func (n *navigatorAgent) travel(ctx context.Context,
 
 		// TODO: check sampling; should happen transparently, by plugin
 
+		node := core.New(path, entry, info, parent, e)
+
 		// TODO: ok for Travel to by-pass mediator?
 		//
-		if progress, err := ns.mediator.impl.Traverse(
-			ctx, ns, servant{
-				node: core.New(
-					path,
-					entry,
-					info,
-					parent,
-					e,
-				),
-			},
-		); !progress {
-			if err != nil {
-				if errors.Is(err, fs.SkipDir) {
-					// The returning of skipTraversal by the child, denotes
-					// a skip. So when a child node returns a SkipDir error and
-					// skipTraversal, what we're saying is that we want to skip
-					// processing all successive siblings but continue traversal.
-					// The !progress indicates we're skipping the remaining
-					// processing of all of the parent node's remaining children.
-					// (see the ✨ below ...)
-					//
-					return skipTraversal, err
-				}
-
-				return continueTraversal, err
-			}
-		} else if err != nil {
-			// ✨ ... we skip processing all the remaining children for
-			// this node, but still continue the overall traversal.
+		progress, err := ns.mediator.impl.Traverse(ctx, ns, servant{
+			node: node,
+		})
+
+		switch {
+		case err == nil:
+			continue
+		case !errors.Is(err, fs.SkipDir):
+			// This includes fs.SkipAll, which has to reach the top in order
+			// to end the whole traversal.
 			//
-			switch {
-			case errors.Is(err, fs.SkipDir):
-				continue
-			case errors.Is(err, fs.SkipAll):
-				break
-			default:
-				return continueTraversal, err
-			}
+			return continueTraversal, err
+		case progress && node.IsDirectory():
+			// the contents of the child directory have been skipped, so carry
+			// on with its siblings.
+			//
+			continue
+		default:
+			// A SkipDir for something that is not a directory denotes that we
+			// skip processing all successive siblings but still continue the
+			// overall traversal.
+			//
+			return continueTraversal, nil
 		}
 	}
 
-- 
2.43.0


From 5f03aec1f089e2469a31e2ce9ef5f4ea36c0f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 02/46] fix: unmute wake notifications with all the others

---
 life/events.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/life/events.go b/life/events.go
index 5f82707..0c57d1b 100644
--- a/life/events.go
+++ b/life/events.go
@@ -78,6 +78,7 @@ func (c *Controls) UnmuteAll() {
 	c.Descend.Unmute()
 	c.End.Unmute()
 	c.Sleep.Unmute()
+	c.Wake.Unmute()
 }
 
 // Bind attaches the underlying notification controllers to the
-- 
2.43.0


From d61c37944f672be60100b5402cb3b6d2fef68896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 03/46] fix: sub path of a node in a tree with a non ascii, '.'
 or '/' path

---
 pref/defaults.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2bb960c..cec3d14 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -48,24 +48,23 @@ func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	})
 }
 
-// tail extracts the end part of a string, starting from the offset
-func tail(input string, offset int) string {
-	asRunes := []rune(input)
+// difference returns the difference between a child path and a parent path
+// Designed to be used with paths created from the file system rather than
+// custom created or user provided input. The result always begins with a
+// separator, unless there is no difference or there is no relationship
+// between the parent and child paths provided.
+func difference(parent, child string) string {
+	const sep = string(filepath.Separator)
 
-	if offset >= len(asRunes) {
-		return ""
+	if parent == "." {
+		return sep + child
 	}
 
-	return string(asRunes[offset:])
-}
+	if result, found := strings.CutPrefix(child, strings.TrimSuffix(parent, sep)); found {
+		return result
+	}
 
-// difference returns the difference between a child path and a parent path
-// Designed to be used with paths created from the file system rather than
-// custom created or user provided input. For this reason, if there is no
-// relationship between the parent and child paths provided then a panic
-// may occur.
-func difference(parent, child string) string {
-	return tail(child, len(parent))
+	return ""
 }
 
 // RootItemSubPathHook
@@ -79,6 +78,10 @@ func DefaultSubPathHook(info *core.SubPathInfo) string {
 		return lo.Ternary(info.KeepTrailingSep, string(filepath.Separator), "")
 	}
 
+	if info.Node.Path == info.Tree {
+		return ""
+	}
+
 	return difference(info.Tree, info.Node.Extension.Parent)
 }
 
-- 
2.43.0


From 19ba584629d0804a6d99f05b7a4b284ea6a99788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 04/46] fix: spawn resume visits what remains of the tree, once
 each

The siblings following the resume point are now determined by traversal order,
restricted to what was subscribed to; depth and sub path of nodes are those of
the original traversal, skips are honoured, an absolute tree is no longer
overshot and resuming at the tree itself is no longer an empty traversal.
---
 internal/enclave/enclave-defs.go       |  1 +
 internal/feat/resume/resume-defs.go    |  8 +--
 internal/feat/resume/strategy-spawn.go | 84 ++++++++++++++++++++------
 internal/kernel/extend.go              |  2 +-
 internal/kernel/mediator.go            |  6 ++
 5 files changed, 75 insertions(+), 26 deletions(-)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 89dfa12..24f1632 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -84,6 +84,7 @@ type (
 		Read(path string) ([]fs.DirEntry, error)
 		Spawn(ctx context.Context, tree string) (*KernelResult, error)
 		Bridge(active *core.ActiveState)
+		Rise()
 		Supervisor() *Supervisor
 	}
 
diff --git a/internal/feat/resume/resume-defs.go b/internal/feat/resume/resume-defs.go
index 3b89259..8839dd2 100644
--- a/internal/feat/resume/resume-defs.go
+++ b/internal/feat/resume/resume-defs.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/pref"
 )
@@ -15,8 +14,7 @@ import (
 // these may be internal modules, eg internal/serial/JSON).
 
 const (
-	badge             = "badge: resume"
-	followingSiblings = true
+	badge = "badge: resume"
 )
 
 type (
@@ -44,8 +42,4 @@ type (
 		current   string
 		inclusive bool
 	}
-
-	shard struct {
-		siblings *kernel.Contents
-	}
 )
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 8a8a5d4..1a6f8bb 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,7 +2,9 @@ package resume
 
 import (
 	"context"
+	"errors"
 	"io/fs"
+	"path/filepath"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -10,6 +12,7 @@ import (
 	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/internal/third/lo"
+	"github.com/snivilised/agenor/stock"
 	nef "github.com/snivilised/nefilim"
 )
 
@@ -33,6 +36,16 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 	// between the previous navigation session and this resume session.
 	s.mediator.Bridge(s.active)
 
+	if s.active.CurrentPath == s.active.Tree {
+		// nothing was fractured, as the previous session was interrupted at the
+		// top of the tree.
+		//
+		s.complete = true
+		result, err = s.mediator.Spawn(ctx, s.active.Tree)
+
+		return result, genuine(err)
+	}
+
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
 		tree:      s.active.Tree,
@@ -40,6 +53,12 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 		inclusive: true,
 	})
 
+	if errors.Is(err, fs.SkipAll) {
+		s.complete = true
+
+		return s.kc.Result(ctx), nil
+	}
+
 	return result, err
 }
 
@@ -70,7 +89,14 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), nil
 	}
 
-	parent, child := s.calc.Split(conc.current)
+	parent, child := s.calc.Dir(conc.current), s.calc.Base(conc.current)
+
+	if parent == conc.current {
+		// the current path is not a descendant of the tree
+		//
+		return s.kc.Result(ctx), core.ErrDetectedSpawnStackOverflow
+	}
+
 	following, err := s.following(parent,
 		child,
 		conc.inclusive,
@@ -79,10 +105,7 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), err
 	}
 
-	following.siblings.Sort(enums.EntryTypeFile)
-	following.siblings.Sort(enums.EntryTypeDirectory)
-
-	result, err := s.seed(ctx, parent, following.siblings.All())
+	result, err := s.seed(ctx, parent, following)
 
 	if err != nil {
 		return result, err
@@ -90,6 +113,7 @@ func (s *spawnStrategy) crown(ctx context.Context,
 
 	conc.current = parent
 	conc.inclusive = false
+	s.mediator.Rise()
 
 	return s.crown(ctx, conc)
 }
@@ -102,9 +126,20 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	result := s.kc.Result(ctx)
 
 	for _, entry := range entries {
-		top := s.calc.Join(parent, entry.Name())
+		top := filepath.Join(parent, entry.Name())
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
+		if errors.Is(err, fs.SkipDir) {
+			// for a directory, only its contents are skipped, whereas for a
+			// file, all its remaining siblings are.
+			//
+			if entry.IsDir() {
+				continue
+			}
+
+			break
+		}
+
 		if err != nil {
 			return intermediate, err
 		}
@@ -113,28 +148,41 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	return result, nil
 }
 
+// following returns the siblings that come after the anchor, in the same order
+// that the uninterrupted traversal would have visited them.
 func (s *spawnStrategy) following(parent, anchor string,
 	inclusive bool,
-) (*shard, error) {
+) ([]fs.DirEntry, error) {
 	entries, err := s.mediator.Read(parent)
 
 	if err != nil {
 		return nil, err
 	}
 
-	groups := lo.GroupBy(entries, func(entry fs.DirEntry) bool {
-		if inclusive {
-			return entry.Name() >= anchor
+	contents := kernel.NewContents(&s.o.Behaviours.Sort, s.o.Hooks.Sort, entries)
+	contents.Sort(enums.EntryTypeAll)
+
+	siblings := contents.All()
+
+	switch s.active.Subscription {
+	case enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles:
+		siblings = contents.Directories()
+	}
+
+	for i, entry := range siblings {
+		if entry.Name() == anchor {
+			return lo.Ternary(inclusive, siblings[i:], siblings[i+1:]), nil
 		}
+	}
 
+	// the anchor no longer exists
+	//
+	return lo.Filter(siblings, func(entry fs.DirEntry, _ int) bool {
 		return entry.Name() > anchor
-	})
+	}), nil
+}
 
-	return &shard{
-		siblings: kernel.NewContents(
-			&s.o.Behaviours.Sort,
-			s.o.Hooks.Sort,
-			groups[followingSiblings],
-		),
-	}, nil
+// genuine removes the error that only denotes a skip
+func genuine(err error) error {
+	return lo.Ternary(stock.IsBenignError(err), nil, err)
 }
diff --git a/internal/kernel/extend.go b/internal/kernel/extend.go
index 9de85a9..4fd1113 100644
--- a/internal/kernel/extend.go
+++ b/internal/kernel/extend.go
@@ -38,7 +38,7 @@ func extend(ns *navigationStatic, vapour inspection) {
 	keepTrailingSep := ns.mediator.o.Behaviours.SubPath.KeepTrailingSep
 
 	spInfo := &core.SubPathInfo{
-		Tree:            ns.tree,
+		Tree:            ns.mediator.tree,
 		Node:            current,
 		KeepTrailingSep: keepTrailingSep,
 	}
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index 0c00a0f..28ed152 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -107,6 +107,12 @@ func (m *mediator) Bridge(active *core.ActiveState) {
 	m.Supervisor().Load(active.Metrics)
 }
 
+// Rise denotes that the resume session is moving up to the parent of the
+// current directory.
+func (m *mediator) Rise() {
+	m.periscope.Offset(-1)
+}
+
 func (m *mediator) Supervisor() *enclave.Supervisor {
 	return m.resources.Supervisor
 }
-- 
2.43.0


From e489d17f768079316c34aa7f38b241c09e49b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 05/46] fix: fastward resume finds the resume point by its path

It is found regardless of client filters or hibernation, and no other node that
just happens to have the same name, the tree itself included, is mistaken for it.
---
 internal/feat/resume/strategy-fastward.go | 17 +++++++++--------
 manifest.go                               |  8 ++++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 84dfd58..55a0745 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -17,8 +17,8 @@ type FastwardFilter struct {
 	source      string
 	description string
 	scope       enums.FilterScope
-	parent      string
 	name        string
+	anywhere    bool
 }
 
 // Description describes filter
@@ -37,9 +37,10 @@ func (f *FastwardFilter) Source() string {
 	return f.source
 }
 
-// IsMatch does this node match the filter
+// IsMatch does this node match the filter. If the resume point is just a name,
+// ie it has no parent, then the first node with that name is the match.
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
-	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
+	return node.Path == f.source || (f.anywhere && node.Extension.Name == f.name)
 }
 
 // IsApplicable is this filter applicable to this node's scope
@@ -81,7 +82,7 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 	//
 	calc := s.forest.T.Calc()
 	scope := lo.Ternary(load.State.IsDir, enums.ScopeDirectory, enums.ScopeFile)
-	parent := calc.Dir(load.State.CurrentPath)
+	anywhere := calc.Dir(load.State.CurrentPath) == "." && load.State.Tree != "."
 
 	s.filter, err = filtering.New(
 		&core.FilterDef{
@@ -92,10 +93,10 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 				description: fmt.Sprintf("[scope: '%v'], path: '%v'",
 					scope, load.State.CurrentPath,
 				),
-				scope:  scope,
-				source: load.State.CurrentPath,
-				parent: parent,
-				name:   calc.Base(load.State.CurrentPath),
+				scope:    scope,
+				source:   load.State.CurrentPath,
+				name:     calc.Base(load.State.CurrentPath),
+				anywhere: anywhere,
 			},
 		},
 	)
diff --git a/manifest.go b/manifest.go
index d96dd8a..38e94ca 100644
--- a/manifest.go
+++ b/manifest.go
@@ -14,8 +14,10 @@ type (
 
 var (
 	manifestOrder = []enums.Role{
-		enums.RoleFastward,
+		// hibernation has to come first, because its state has to evolve whilst
+		// fast forwarding to the resume point.
 		enums.RoleHibernate,
+		enums.RoleFastward,
 		enums.RoleNanny,
 		enums.RoleClientFilter,
 		enums.RoleSampler,
@@ -63,5 +65,7 @@ func manifest(active []enums.Role) []enums.Role {
 		initial,
 	)
 
-	return roles
+	return lo.Filter(all, func(role enums.Role, _ int) bool {
+		return slices.Contains(roles, role)
+	})
 }
-- 
2.43.0


From a873b80b823d9aae1eab449a74b60c8358dd18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 06/46] fix: state saved after a panic denotes the node being
 visited

It was that of its parent, from which a resume repeats nodes already visited or
finds nothing at all; a panic for the tree itself was not rescued.
---
 internal/kernel/author.go          |   2 +-
 internal/kernel/navigator-agent.go | 113 +++++++++++++++++------------
 internal/kernel/vex.go             |   6 ++
 3 files changed, 74 insertions(+), 47 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 07ade6d..1d2d934 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -29,7 +29,7 @@ func (a *author) write(vex vexation) (string, error) {
 
 	path := calc.Join(directory, file)
 	active := vapour.active(vex.ancestor(), forest,
-		static.mediator.periscope.Depth(),
+		vex.depth(),
 		static.mediator.metrics,
 	)
 
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 7f0ea53..6c404b0 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -60,19 +60,70 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			_, te := ns.mediator.impl.Traverse(ctx, ns,
-				servant{
-					node: core.Top(ns.tree, info),
-				},
-			)
-
-			return te
+			return n.launch(ctx, ns, core.Top(ns.tree, info))
 		},
 	)
 
 	return ns.mediator.impl.Result(ctx), err
 }
 
+// launch traverses the top node, ie the one that does not have a parent that
+// can rescue it.
+func (n *navigatorAgent) launch(ctx context.Context,
+	ns *navigationStatic,
+	node *core.Node,
+) (err error) {
+	depth := ns.mediator.periscope.Depth() + 1
+
+	defer func() {
+		if data := recover(); data != nil {
+			err = n.rescue(ns, node, depth, data)
+		}
+	}()
+
+	_, err = ns.mediator.impl.Traverse(ctx, ns, servant{
+		node: node,
+	})
+
+	return err
+}
+
+// rescue saves the state of the traversal, as a result of a panic that occurred
+// whilst traversing the node; this is the point at which a resume begins.
+func (n *navigatorAgent) rescue(ns *navigationStatic,
+	node *core.Node, depth int, data any,
+) error {
+	// The tree on the mediator always points to the original tree root
+	// requested by the user. The tree on navigation static can be different
+	// when a spawn resume is in play; ie, the Spawn is created using a child
+	// tree and this is what is set on the navigation static when a sub tree
+	// is seeded, but this would be the incorrect tree to persist, rather, we
+	// need the real ancestor that is denoted by the mediator's tree.
+	//
+	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
+		data: data,
+		anc:  ns.mediator.tree,
+		vap: &navigationVapour{
+			ns:      ns,
+			present: node,
+		},
+		level:    depth,
+		catalyst: "panic",
+		mag:      n.magnitude,
+	}) // wrap???
+
+	panicErr, ok := data.(error)
+	if !ok {
+		panicErr = errors.New("")
+	}
+
+	if rescueErr != nil {
+		return locale.NewTraversalNotSavedError(panicErr, rescueErr)
+	}
+
+	return locale.NewTraversalSavedError(to, panicErr)
+}
+
 // Result is the single point at which a Result is constructed. Due to
 // the spawn resume strategy, a Result may occur more than once during
 // a navigation session. The session knows when completion occurs. Any
@@ -106,56 +157,26 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	ns *navigationStatic,
 	vapour inspection,
 ) (skip bool, err error) {
+	var (
+		parent = vapour.Current()
+		node   = parent
+		depth  = parent.Extension.Depth
+	)
+
 	defer func() {
 		if data := recover(); data != nil {
-			// The tree on the mediator always points to the original tree root
-			// requested by the user. The tree on navigation static can be different
-			// when a spawn resume is in play; ie, the Spawn is created using a child
-			// tree and this is what is set on the navigation static when a sub tree
-			// is seeded, but this would be the incorrect tree to persist, rather, we
-			// need the real ancestor that is denoted by the mediator's tree.
-			//
-			to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
-				data:     data,
-				anc:      ns.mediator.tree,
-				vap:      vapour,
-				catalyst: "panic",
-				mag:      n.magnitude,
-			}) // wrap???
-
-			panicErr, ok := data.(error)
-			if !ok {
-				panicErr = errors.New("")
-			}
-
-			if rescueErr != nil {
-				err = locale.NewTraversalNotSavedError(panicErr, rescueErr)
-			}
-
-			err = lo.TernaryF(rescueErr != nil,
-				func() error {
-					return locale.NewTraversalNotSavedError(panicErr, rescueErr)
-				},
-				func() error {
-					return locale.NewTraversalSavedError(to, panicErr)
-				},
-			)
-
-			skip = skipTraversal
+			skip, err = skipTraversal, n.rescue(ns, node, depth, data)
 		}
 	}()
 
-	var (
-		parent = vapour.Current()
-	)
-
 	for _, entry := range vapour.Entries() {
 		path := filepath.Join(parent.Path, entry.Name())
 		info, e := entry.Info()
 
 		// TODO: check sampling; should happen transparently, by plugin
 
-		node := core.New(path, entry, info, parent, e)
+		node = core.New(path, entry, info, parent, e)
+		depth = parent.Extension.Depth + 1
 
 		// TODO: ok for Travel to by-pass mediator?
 		//
diff --git a/internal/kernel/vex.go b/internal/kernel/vex.go
index 8801c21..4c363de 100644
--- a/internal/kernel/vex.go
+++ b/internal/kernel/vex.go
@@ -4,6 +4,7 @@ type (
 	vexation interface {
 		ancestor() string
 		vapour() inspection
+		depth() int
 		cause() string
 		magnitude() string
 	}
@@ -12,6 +13,7 @@ type (
 		data     interface{}
 		anc      string
 		vap      inspection
+		level    int
 		catalyst string
 		mag      string
 	}
@@ -29,6 +31,10 @@ func (v *vex) vapour() inspection {
 	return v.vap
 }
 
+func (v *vex) depth() int {
+	return v.level
+}
+
 func (v *vex) cause() string {
 	return v.catalyst
 }
-- 
2.43.0


From 8848d4feefe7f7bb5f266b8f164218b7892c718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 07/46] fix: merging metrics keeps those not registered yet

---
 core/metrics.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/core/metrics.go b/core/metrics.go
index 67a0052..fc1a6fd 100644
--- a/core/metrics.go
+++ b/core/metrics.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"maps"
-
 	"github.com/snivilised/agenor/enums"
 )
 
@@ -58,15 +56,13 @@ func (m *NavigationMetric) Times(increment uint) MetricValue {
 }
 
 func (m Metrics) Merge(other Metrics) {
-	for mt := range maps.Keys(m) {
-		if om, foundOther := other[mt]; foundOther {
-			if metric, found := m[mt]; found {
-				metric.Times(om.Counter)
-			} else {
-				m[mt] = &NavigationMetric{
-					T:       mt,
-					Counter: om.Counter,
-				}
+	for mt, om := range other {
+		if metric, found := m[mt]; found {
+			metric.Times(om.Counter)
+		} else {
+			m[mt] = &NavigationMetric{
+				T:       mt,
+				Counter: om.Counter,
 			}
 		}
 	}
-- 
2.43.0


From bc10696e9cbc9c06aaaf868e31579299f254766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 08/46] fix: contents of a node that is not a directory are
 empty, rather than nil

---
 internal/kernel/contents.go          | 18 ------------------
 internal/kernel/navigation-vapour.go |  3 ++-
 2 files changed, 2 insertions(+), 19 deletions(-)

diff --git a/internal/kernel/contents.go b/internal/kernel/contents.go
index e5cf24b..36d20e5 100644
--- a/internal/kernel/contents.go
+++ b/internal/kernel/contents.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
-	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/pref"
 	"github.com/snivilised/agenor/tapable"
 	nef "github.com/snivilised/nefilim"
@@ -88,20 +87,3 @@ func (c *Contents) clear() {
 	c.files = []fs.DirEntry{}
 	c.directories = []fs.DirEntry{}
 }
-
-func newEmptyContents(prealloc ...*pref.EntryQuantities) *Contents {
-	return lo.TernaryF(len(prealloc) == 0,
-		func() *Contents {
-			return &Contents{
-				files:       []fs.DirEntry{},
-				directories: []fs.DirEntry{},
-			}
-		},
-		func() *Contents {
-			return &Contents{
-				files:       make([]fs.DirEntry, 0, prealloc[0].Files),
-				directories: make([]fs.DirEntry, 0, prealloc[0].Directories),
-			}
-		},
-	)
-}
diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index ec6c627..37232c9 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -38,7 +38,8 @@ func (v *navigationVapour) clear() {
 	if v.cargo != nil {
 		v.cargo.clear()
 	} else {
-		newEmptyContents()
+		o := v.ns.mediator.o
+		v.cargo = NewContents(&o.Behaviours.Sort, o.Hooks.Sort, nil)
 	}
 }
 
-- 
2.43.0


From 6d7006192cc21b42aafb90eb2814a20fb9234eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 09/46] fix: reply of the skip handler is honoured for all
 subscriptions

---
 internal/kernel/navigator-agent.go       | 20 ++++++++++++++++++++
 internal/kernel/navigator-directories.go |  4 +---
 internal/kernel/navigator-files.go       |  6 +-----
 internal/kernel/navigator-universal.go   |  6 +-----
 4 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 6c404b0..44ad83c 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/locale"
@@ -139,6 +140,25 @@ func (n *navigatorAgent) Result(_ context.Context) *enclave.KernelResult {
 	return result
 }
 
+// ask consults the skip handler as to whether the contents of the current node
+// should be skipped. The handler does not have to return an error in order
+// to skip the rest of the traversal.
+func (n *navigatorAgent) ask(ns *navigationStatic,
+	current *core.Node,
+	vapour inspection,
+	readErr error,
+) (skip bool, err error) {
+	reply, err := ns.mediator.o.Defects.Skip.Ask(
+		current, vapour.Contents(), readErr,
+	)
+
+	if reply == enums.SkipAllTraversal && err == nil {
+		err = fs.SkipAll
+	}
+
+	return reply != enums.SkipNoneTraversal || err != nil, err
+}
+
 const (
 	continueTraversal = true
 	skipTraversal     = false
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 15ab53d..900e2dd 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -39,9 +39,7 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 		return continueTraversal, e
 	}
 
-	if skip, e := ns.mediator.o.Defects.Skip.Ask(
-		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal {
+	if skip, e := n.ask(ns, current, vapour, err); skip {
 		return continueTraversal, e
 	}
 
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index f3e6e0e..2cc6a25 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -47,12 +47,8 @@ func (n *navigatorFiles) Traverse(ctx context.Context,
 		return false, ns.mediator.Invoke(servant, vapour)
 	}
 
-	if skip, e := ns.mediator.o.Defects.Skip.Ask(
-		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal || err != nil {
+	if skip, e := n.ask(ns, current, vapour, err); skip {
 		return continueTraversal, e
-	} else if skip == enums.SkipDirTraversal {
-		return true, e
 	}
 
 	return n.travel(ctx, ns, vapour)
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 6e67e3a..b47dcf4 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -39,12 +39,8 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 		return continueTraversal, e
 	}
 
-	if skip, e := ns.mediator.o.Defects.Skip.Ask(
-		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal {
+	if skip, e := n.ask(ns, current, vapour, err); skip {
 		return continueTraversal, e
-	} else if skip == enums.SkipDirTraversal {
-		return skipTraversal, e
 	}
 
 	return n.travel(ctx, ns, vapour)
-- 
2.43.0


From 414704744d18b9de3e1ab134c3b1e790210fa3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 10/46] fix: sampling passes on the error of reading a
 directory

---
 internal/feat/sampling/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/feat/sampling/controller.go b/internal/feat/sampling/controller.go
index 95fc165..b3bf3ba 100644
--- a/internal/feat/sampling/controller.go
+++ b/internal/feat/sampling/controller.go
@@ -24,7 +24,7 @@ func (p *controller) Next(_ core.Servant, _ enclave.Inspection) (bool, error) {
 	return true, nil
 }
 
-func (p *controller) sample(result []fs.DirEntry, _ error,
+func (p *controller) sample(result []fs.DirEntry, err error,
 	_ fs.ReadDirFS, _ string,
 ) ([]fs.DirEntry, error) {
 	files, directories := nef.Separate(result)
@@ -33,7 +33,7 @@ func (p *controller) sample(result []fs.DirEntry, _ error,
 		files:       files,
 		directories: directories,
 		o:           p.o,
-	}), nil
+	}), err
 }
 
 type (
-- 
2.43.0


From 615113c8441799e07aeb14b7274616b867c8f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 11/46] fix: invalid or custom filter definitions are not
 mistaken for something else

A custom node filter no longer replaces hibernation triggers, a poly trigger
uses its own definition and a definition that does not result in a filter is
reported as an error, rather than ending up as a nil filter.
---
 internal/filtering/builders.go   | 17 +++++++++++++++--
 internal/filtering/child.go      |  1 +
 internal/filtering/new-filter.go |  9 ++++++++-
 internal/filtering/sample.go     |  7 +++++--
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3be1f4a..8381234 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -63,7 +63,12 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := fo.Node.Poly
+
+	polyDef := definition.Poly
+
+	if polyDef == nil {
+		return nil, locale.ErrPolyFilterIsInvalid
+	}
 
 	// enforce the correct filter scopes
 	//
@@ -119,6 +124,10 @@ func buildConstituent(definition *core.FilterDef,
 		return nil, err
 	}
 
+	if filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
 	if err := filter.Validate(); err != nil {
 		return nil, err
 	}
@@ -126,9 +135,13 @@ func buildConstituent(definition *core.FilterDef,
 	return filter, err
 }
 
-func getCustomFilter(_ *core.FilterDef,
+func getCustomFilter(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
+	if definition.Type != enums.FilterTypeCustom {
+		return nil, nil
+	}
+
 	return fo.Custom, nil
 }
 
diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index b81dcea..d51e890 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -41,6 +41,7 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 		return nil, locale.ErrFilterUndefined
 
 	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
 	}
 
 	if filter != nil {
diff --git a/internal/filtering/new-filter.go b/internal/filtering/new-filter.go
index 43082e5..1d20d55 100644
--- a/internal/filtering/new-filter.go
+++ b/internal/filtering/new-filter.go
@@ -2,13 +2,14 @@ package filtering
 
 import (
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/locale"
 	"github.com/snivilised/agenor/pref"
 )
 
 func New(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
-	return OrFuncE(
+	filter, err := OrFuncE(
 		func() (core.TraverseFilter, error) {
 			return buildPolyNodeFilter(definition, fo, buildNativeNodeFilter, getCustomFilter)
 		},
@@ -19,4 +20,10 @@ func New(definition *core.FilterDef,
 			return buildNativeNodeFilter(definition)
 		},
 	)
+
+	if err == nil && filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
+	return filter, err
 }
diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 2769453..79d55a8 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -50,7 +50,6 @@ func NewSample(def *core.SampleFilterDef,
 	}
 
 	switch def.Type {
-	case enums.FilterTypeGlobEx:
 	case enums.FilterTypeRegex:
 		filter = &SampleRegex{
 			Sample: base,
@@ -65,9 +64,13 @@ func NewSample(def *core.SampleFilterDef,
 			return nil, locale.ErrFilterIsNil
 		}
 		filter = def.Custom
-	case enums.FilterTypePoly:
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
+
+	case enums.FilterTypeGlobEx, enums.FilterTypePoly:
+		// not supported for sampling
+		//
+		return nil, locale.ErrFilterIsNil
 	}
 
 	if filter != nil {
-- 
2.43.0


From 299f05ab1d61be820172c97f7e023712482e0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 12/46] fix: poly filter when the tree itself is a file

---
 internal/filtering/poly.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/poly.go b/internal/filtering/poly.go
index 0ed6330..7fc6c75 100644
--- a/internal/filtering/poly.go
+++ b/internal/filtering/poly.go
@@ -65,7 +65,11 @@ func (f *Poly) Source() string {
 // the poly directory filter. Returns true of the current node is a directory.
 func (f *Poly) IsMatch(node *core.Node) bool {
 	if !node.IsDirectory() {
-		return f.Directory.IsMatch(node.Parent) && f.File.IsMatch(node)
+		if node.Parent != nil && !f.Directory.IsMatch(node.Parent) {
+			return false
+		}
+
+		return f.File.IsMatch(node)
 	}
 
 	return true
-- 
2.43.0


From 6c17a636a8b3b4963ba17c66eebe118aaf6d46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 13/46] fix: extended glob with upper case names or multiple
 exclusions

---
 internal/filtering/glob-ex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 15bf900..ab5a530 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -192,11 +192,16 @@ func (s *patternSpec) match(name string) bool {
 }
 
 func (s globSpec) IsMatch(name string) bool { //nolint: gocritic
+	// the patterns are all in lower case
+	name = strings.ToLower(name)
+
 	for _, spec := range s.specs {
 		if spec.excluded(name) {
 			return false
 		}
+	}
 
+	for _, spec := range s.specs {
 		if spec.excludeExt || spec.match(name) {
 			return true
 		}
-- 
2.43.0


From 51a8588ba0640249b7e52eea6b552e0887c2e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 14/46] fix: sort is case sensitive when the sort behaviour
 says so

---
 pref/options.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pref/options.go b/pref/options.go
index f58cb0b..3c1c898 100644
--- a/pref/options.go
+++ b/pref/options.go
@@ -2,6 +2,7 @@ package pref
 
 import (
 	"io"
+	"io/fs"
 	"log/slog"
 	"path/filepath"
 	"runtime"
@@ -120,7 +121,6 @@ func DefaultOptions() *Options {
 		Concurrency: ConcurrencyOptions{
 			NoW: uint(runtime.NumCPU()),
 		},
-		Hooks: newHooks(),
 		Monitor: MonitorOptions{
 			Log: nopLogger,
 			Admin: AdminOptions{
@@ -135,10 +135,12 @@ func DefaultOptions() *Options {
 		},
 	}
 
+	o.Hooks = newHooks(&o.Behaviours.Sort)
+
 	return o
 }
 
-func newHooks() tapable.Hooks {
+func newHooks(sort *SortBehaviour) tapable.Hooks {
 	return tapable.Hooks{
 		FileSubPath: tapable.NewHookCtrl[
 			core.SubPathHook, core.ChainSubPathHook, tapable.SubPathBroadcaster,
@@ -175,7 +177,15 @@ func newHooks() tapable.Hooks {
 		Sort: tapable.NewHookCtrl[
 			core.SortHook, core.ChainSortHook, tapable.SortBroadcaster,
 		](
-			DefaultCaseInSensitiveSortHook,
+			func(entries []fs.DirEntry, custom ...any) {
+				if sort.IsCaseSensitive {
+					CaseSensitiveSortHook(entries, custom...)
+
+					return
+				}
+
+				DefaultCaseInSensitiveSortHook(entries, custom...)
+			},
 			tapable.GetSortBroadcaster,
 			tapable.SortAttacher,
 		),
-- 
2.43.0


From 6a87b60adf9ea9d20482e498952c05069658d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 15/46] fix: concurrent traversal does not lose jobs, or hang
 when cancelled

The pool was released as soon as the traversal ended, regardless of jobs that
had not been executed yet, and sending a job to a pool that has been cancelled
blocked forever.
---
 synchronise.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 965aeef..e34d333 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
@@ -47,16 +48,20 @@ type concurrent struct {
 	pool    *core.TraversePool
 	inputCh pants.SourceStreamW[*core.TraverseInput]
 	swapper enclave.Swapper
+	pending atomic.Int64
+	idle    chan struct{}
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
 	defer func() {
-		c.close()
 		if c.pool != nil {
-			c.pool.Release(ctx)
+			c.release(ctx)
 		}
+		c.close()
 	}()
 
+	c.idle = make(chan struct{}, 1)
+
 	if c.err != nil {
 		return c.kc.Result(ctx), c.err
 	}
@@ -69,14 +74,25 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 				Handler: handler,
 			}
 
-			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			c.pending.Add(1)
+
+			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			//
+			select {
+			case c.inputCh <- input:
+				return nil
+			case <-ctx.Done():
+				c.complete()
 
-			return nil
+				return ctx.Err()
+			}
 		})
 	}
 
 	c.pool, c.err = pants.NewManifoldFuncPool(
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
+			defer c.complete()
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -112,6 +128,36 @@ func (c *concurrent) open(ctx context.Context) {
 	c.inputCh = c.pool.Source(ctx, c.wg)
 }
 
+// complete denotes that a job submitted to the pool has ended
+func (c *concurrent) complete() {
+	if c.pending.Add(-1) == 0 {
+		select {
+		case c.idle <- struct{}{}:
+		default:
+		}
+	}
+}
+
+// release the pool, but not until it has executed all of the jobs submitted to
+// it, otherwise those that have not been started yet would be lost. The client's
+// wait group is not done until then.
+func (c *concurrent) release(ctx context.Context) {
+	c.wg.Add(1)
+
+	go func() {
+		defer c.wg.Done()
+		defer c.pool.Release(ctx)
+
+		for c.pending.Load() > 0 {
+			select {
+			case <-c.idle:
+			case <-ctx.Done():
+				return
+			}
+		}
+	}()
+}
+
 func (c *concurrent) close() {
 	if c.inputCh != nil {
 		close(c.inputCh)
-- 
2.43.0


From 4bf2a93980f24eee7622f050852d242bf52d6e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 16/46] fix: extended glob without an exclusion applies to the
 content of the root directory

---
 internal/filtering/glob-ex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index ab5a530..dcd13e4 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -72,6 +72,10 @@ func (f *GlobEx) isDirectoryMatch(node *core.Node) bool {
 			return false
 		}
 
+		if f.spec.directoryExclusion == "" {
+			return true
+		}
+
 		if excluded, _ := filepath.Match(
 			f.spec.directoryExclusion, name,
 		); excluded {
-- 
2.43.0


From db97a27b9bc6c5e1fa6f07d55a1208b6c18e66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 17/46] fix: traversals can be run at the same time

---
 driver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/driver.go b/driver.go
index d690cf3..ec9a8ed 100644
--- a/driver.go
+++ b/driver.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
@@ -12,11 +13,18 @@ const (
 	badge = "badge: navigation-driver"
 )
 
+// registration synchronises access to the broker, which is shared by all
+// navigations, including those that are running at the same time.
+var registration sync.Mutex
+
 type driver struct {
 	s session
 }
 
 func (d *driver) init() {
+	registration.Lock()
+	defer registration.Unlock()
+
 	services.Broker.RegisterHandler(badge, bus.Handler{
 		Handle: func(_ context.Context, m bus.Message) {
 			_ = m.Data
-- 
2.43.0


From b8b4df4744f2e8a248eca1237c1ad2a72f4ebb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 18/46] fix: hibernation state and all metrics survive a save
 and spawn resume

---
 internal/enclave/supervisor.go                | 33 +++++++++++++++++++
 internal/feat/hiber/hibernate-defs.go         |  2 +-
 internal/feat/hiber/hibernate-plugin.go       |  2 +-
 .../feat/hiber/hibernate-simple-profile.go    | 12 ++++---
 internal/kernel/author.go                     |  2 +-
 internal/kernel/kernel-defs.go                |  2 +-
 internal/kernel/mediator.go                   |  1 +
 internal/kernel/navigation-vapour.go          |  7 ++--
 8 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/internal/enclave/supervisor.go b/internal/enclave/supervisor.go
index 9aaddea..48fa1ad 100644
--- a/internal/enclave/supervisor.go
+++ b/internal/enclave/supervisor.go
@@ -8,6 +8,19 @@ import (
 type (
 	Supervisor struct {
 		metrics core.Metrics
+		slumber Slumber
+	}
+
+	// Slumber is the hibernation state; undefined if the traversal does not
+	// hibernate.
+	Slumber struct {
+		// Reached is the state that was in force when the current node was
+		// reached, ie the one in force at the resume point, if traversal
+		// is interrupted there.
+		Reached enums.Hibernation
+
+		// Current is the state in force now
+		Current enums.Hibernation
 	}
 
 	Crate struct {
@@ -25,6 +38,26 @@ func (s *Supervisor) Load(metrics core.Metrics) {
 	s.metrics.Merge(metrics)
 }
 
+// Restore the hibernation state of a previous session
+func (s *Supervisor) Restore(en enums.Hibernation) {
+	if s.slumber.Current != enums.HibernationUndefined && en != enums.HibernationUndefined {
+		s.slumber = Slumber{
+			Reached: en,
+			Current: en,
+		}
+	}
+}
+
+// Metrics returns all metrics registered
+func (s *Supervisor) Metrics() core.Metrics {
+	return s.metrics
+}
+
+// Slumber provides access to the hibernation state
+func (s *Supervisor) Slumber() *Slumber {
+	return &s.slumber
+}
+
 func (s *Supervisor) Single(mt enums.Metric) *core.NavigationMetric {
 	if _, exists := s.metrics[mt]; !exists {
 		metric := &core.NavigationMetric{
diff --git a/internal/feat/hiber/hibernate-defs.go b/internal/feat/hiber/hibernate-defs.go
index b9c34d3..5248d25 100644
--- a/internal/feat/hiber/hibernate-defs.go
+++ b/internal/feat/hiber/hibernate-defs.go
@@ -44,7 +44,7 @@ type (
 	}
 
 	profile interface {
-		init(controls *life.Controls) error
+		init(controls *life.Controls, slumber *enclave.Slumber) error
 		next(servant core.Servant, node *core.Node,
 			inspection enclave.Inspection,
 		) (bool, error)
diff --git a/internal/feat/hiber/hibernate-plugin.go b/internal/feat/hiber/hibernate-plugin.go
index 90c8129..52b20fd 100644
--- a/internal/feat/hiber/hibernate-plugin.go
+++ b/internal/feat/hiber/hibernate-plugin.go
@@ -39,7 +39,7 @@ func (p *plugin) Next(servant core.Servant,
 }
 
 func (p *plugin) Init(pi *enclave.PluginInit) error {
-	if err := p.profile.init(pi.Controls); err != nil {
+	if err := p.profile.init(pi.Controls, p.Mediator.Supervisor().Slumber()); err != nil {
 		return err
 	}
 
diff --git a/internal/feat/hiber/hibernate-simple-profile.go b/internal/feat/hiber/hibernate-simple-profile.go
index cdd801e..695c9cd 100644
--- a/internal/feat/hiber/hibernate-simple-profile.go
+++ b/internal/feat/hiber/hibernate-simple-profile.go
@@ -15,10 +15,11 @@ import (
 type simple struct {
 	common
 	states  hibernateStates
-	current state
+	slumber *enclave.Slumber
 }
 
-func (p *simple) init(controls *life.Controls) error {
+func (p *simple) init(controls *life.Controls, slumber *enclave.Slumber) error {
+	p.slumber = slumber
 	p.states = p.create()
 	p.controls = controls
 
@@ -57,16 +58,19 @@ func (p *simple) init(controls *life.Controls) error {
 	}
 
 	p.transition(launch(p.common.ho))
+	p.slumber.Reached = p.slumber.Current
 
 	return nil
 }
 
 func (p *simple) transition(en enums.Hibernation) {
-	p.current = p.states[en]
+	p.slumber.Current = en
 }
 
 func (p *simple) next(servant core.Servant, node *core.Node, inspection enclave.Inspection) (bool, error) {
-	return p.current.next(servant, node, inspection)
+	p.slumber.Reached = p.slumber.Current
+
+	return p.states[p.slumber.Current].next(servant, node, inspection)
 }
 
 func (p *simple) create() hibernateStates {
diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 1d2d934..96c2144 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -30,7 +30,7 @@ func (a *author) write(vex vexation) (string, error) {
 	path := calc.Join(directory, file)
 	active := vapour.active(vex.ancestor(), forest,
 		vex.depth(),
-		static.mediator.metrics,
+		static.mediator.Supervisor(),
 	)
 
 	request := &persist.MarshalRequest{
diff --git a/internal/kernel/kernel-defs.go b/internal/kernel/kernel-defs.go
index debba4e..893cf8f 100644
--- a/internal/kernel/kernel-defs.go
+++ b/internal/kernel/kernel-defs.go
@@ -109,7 +109,7 @@ type (
 		active(tree string,
 			forest *core.Forest,
 			depth int,
-			metrics core.Metrics) *core.ActiveState
+			supervisor *enclave.Supervisor) *core.ActiveState
 		clear()
 	}
 )
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index 28ed152..32ca184 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -105,6 +105,7 @@ func (m *mediator) Bridge(active *core.ActiveState) {
 	m.tree = active.Tree
 	m.periscope.Offset(active.Depth)
 	m.Supervisor().Load(active.Metrics)
+	m.Supervisor().Restore(active.Hibernation)
 }
 
 // Rise denotes that the resume session is moving up to the parent of the
diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index 37232c9..aa85c24 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
+	"github.com/snivilised/agenor/internal/enclave"
 )
 
 type (
@@ -46,7 +47,7 @@ func (v *navigationVapour) clear() {
 func (v *navigationVapour) active(tree string,
 	forest *core.Forest,
 	depth int,
-	metrics core.Metrics,
+	supervisor *enclave.Supervisor,
 ) *core.ActiveState {
 	return &core.ActiveState{
 		Tree: tree,
@@ -57,11 +58,11 @@ func (v *navigationVapour) active(tree string,
 			IsRelative: forest.R.IsRelative(),
 		},
 		Subscription: v.ns.subscription,
-		Hibernation:  enums.HibernationRetired, // TODO:check
+		Hibernation:  supervisor.Slumber().Reached,
 		CurrentPath:  v.present.Path,
 		IsDir:        v.present.IsDirectory(),
 		Depth:        depth,
-		Metrics:      metrics,
+		Metrics:      supervisor.Metrics(),
 	}
 }
 
-- 
2.43.0


From 01e820d9b3e300cef0727d59558e60928ffe44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 19/46] fix: nodes spawned by a resume are linked to the
 directory that contains them

---
 internal/kernel/mediator.go        |  1 +
 internal/kernel/navigator-agent.go | 40 +++++++++++++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index 32ca184..a7bcdb6 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -26,6 +26,7 @@ type mediator struct {
 	resources    *enclave.Resources
 	metrics      core.Metrics
 	order        []enums.Role
+	kin          *core.Node // ancestor of the spawned sub trees
 }
 
 func NewMediator(inception *Inception,
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 44ad83c..233e70b 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -61,13 +61,51 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			return n.launch(ctx, ns, core.Top(ns.tree, info))
+			node := core.Top(ns.tree, info)
+
+			if ns.tree != ns.mediator.tree {
+				node.Parent = n.ancestor(ns, ns.calc.Dir(ns.tree))
+			}
+
+			return n.launch(ctx, ns, node)
 		},
 	)
 
 	return ns.mediator.impl.Result(ctx), err
 }
 
+// ancestor returns the node for the directory specified, which contains the top
+// of a spawned sub tree; the directory itself has been visited by the previous
+// session.
+func (n *navigatorAgent) ancestor(ns *navigationStatic, path string) *core.Node {
+	for kin := ns.mediator.kin; kin != nil; kin = kin.Parent {
+		if kin.Path == path {
+			return kin
+		}
+	}
+
+	fS := ns.mediator.resources.Forest.T
+	info, _ := n.ao.hooks.QueryStatus.Invoke()(fS, path)
+	node := core.Top(path, info)
+
+	if parent := ns.calc.Dir(path); path != ns.mediator.tree && parent != path {
+		ns.mediator.periscope.Offset(-1)
+		node.Parent = n.ancestor(ns, parent)
+		ns.mediator.periscope.Offset(1)
+	}
+
+	vapour := &navigationVapour{
+		ns:      ns,
+		present: node,
+	}
+	vapour.cargo, _ = read(fS, n.ro, path)
+
+	extend(ns, vapour)
+	ns.mediator.kin = node
+
+	return node
+}
+
 // launch traverses the top node, ie the one that does not have a parent that
 // can rescue it.
 func (n *navigatorAgent) launch(ctx context.Context,
-- 
2.43.0


From 6f74f977500efeec2614150fb077c3ed72de24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 20/46] fix: unknown subscription or filter type is refused

---
 internal/filtering/builders.go       | 3 +++
 internal/filtering/child.go          | 3 +++
 internal/filtering/sample.go         | 3 +++
 internal/kernel/navigator-factory.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 8381234..8bd412a 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -32,6 +32,9 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
+
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
 	if err != nil {
diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index d51e890..1351182 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -42,6 +42,9 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 
 	case enums.FilterTypePoly:
 		return nil, locale.ErrPolyFilterIsInvalid
+
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
 	if filter != nil {
diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 79d55a8..e11a89c 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -71,6 +71,9 @@ func NewSample(def *core.SampleFilterDef,
 		// not supported for sampling
 		//
 		return nil, locale.ErrFilterIsNil
+
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
 	if filter != nil {
diff --git a/internal/kernel/navigator-factory.go b/internal/kernel/navigator-factory.go
index 16d2c2a..496017b 100644
--- a/internal/kernel/navigator-factory.go
+++ b/internal/kernel/navigator-factory.go
@@ -63,6 +63,9 @@ func newImpl(o *pref.Options,
 		}
 
 	case enums.SubscribeUndefined:
+		fallthrough
+
+	default:
 		err = locale.ErrUsageMissingSubscription
 		impl = &navigatorUniversal{
 			navigatorAgent: agent,
-- 
2.43.0


From 4e40ea4458c120c631a5428f5c1e916cf05b94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 21/46] fix: poly or custom filter without its definition is
 refused

---
 pref/options-filter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pref/options-filter.go b/pref/options-filter.go
index 1dd2494..b17c0da 100644
--- a/pref/options-filter.go
+++ b/pref/options-filter.go
@@ -2,6 +2,7 @@ package pref
 
 import (
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/enums"
 )
 
 type (
@@ -55,7 +56,9 @@ func WithFilter(filter *FilterOptions) Option {
 
 func (fo FilterOptions) IsNodeFilteringActive() bool {
 	return (fo.Node != nil) &&
-		((fo.Node.Pattern != "") || fo.Node.Poly != nil)
+		((fo.Node.Pattern != "") || fo.Node.Poly != nil ||
+			fo.Node.Type == enums.FilterTypePoly ||
+			fo.Node.Type == enums.FilterTypeCustom)
 }
 
 func (fo FilterOptions) IsChildFilteringActive() bool {
-- 
2.43.0


From 0e8c29044cc9a892b1d23e48ec279304125c7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 22/46] fix: incomplete resume state is refused

---
 extent.go                     |  2 +-
 internal/persist/marshaler.go | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/extent.go b/extent.go
index 218a6bf..9aef320 100644
--- a/extent.go
+++ b/extent.go
@@ -99,7 +99,7 @@ func (x *resumeExtent) options(addons []Addon,
 
 	x.loaded = loaded
 
-	if handler := x.seek(addons); handler != nil {
+	if handler := x.seek(addons); handler != nil && err == nil {
 		handler.OnLoad(loaded.State)
 	}
 
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 1366e70..d848bef 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -2,6 +2,7 @@ package persist
 
 import (
 	ejson "encoding/json"
+	"fmt"
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
@@ -92,6 +93,16 @@ func Unmarshal(request *UnmarshalRequest,
 		return nil, err
 	}
 
+	if mr.JO == nil || mr.Active == nil {
+		return nil, fmt.Errorf("resume state is incomplete: %q", request.Restore.Path)
+	}
+
+	for _, metric := range mr.Active.Metrics {
+		if metric == nil {
+			return nil, fmt.Errorf("resume state is incomplete: %q", request.Restore.Path)
+		}
+	}
+
 	for _, fn := range tampers {
 		fn(&mr)
 	}
-- 
2.43.0


From 3800bd98350dd82a887183e5898472cc9bb92b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 23/46] fix: missing forest, or invalid relic is refused

---
 internal/kernel/author.go |  5 +++++
 pref/facade.go            |  4 +++-
 scaffold.go               | 10 +++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 96c2144..0144c13 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -20,6 +20,11 @@ func (a *author) write(vex vexation) (string, error) {
 	static := vapour.static()
 	forest := static.mediator.resources.Forest
 	fS := forest.R
+
+	if fS == nil {
+		return "", core.ErrNilForest
+	}
+
 	calc := fS.Calc()
 	directory, file := a.destination(vex, calc)
 
diff --git a/pref/facade.go b/pref/facade.go
index b29aba2..1cf62b2 100644
--- a/pref/facade.go
+++ b/pref/facade.go
@@ -141,7 +141,9 @@ func (f *Relic) Validate() error {
 		return locale.ErrUsageMissingRestorePath
 	}
 
-	if f.Strategy == enums.ResumeStrategyUndefined {
+	switch f.Strategy {
+	case enums.ResumeStrategyFastward, enums.ResumeStrategySpawn:
+	default:
 		return locale.ErrUsageMissingSubscription // TODO: THIS IS WRONG ERROR
 	}
 
diff --git a/scaffold.go b/scaffold.go
index 59e3242..83ccd6c 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,6 +44,10 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
+	if err == nil && (ext.trees == nil || ext.trees.T == nil) {
+		err = core.ErrNilForest
+	}
+
 	return &platform{
 		fac: facade,
 		ext: ext,
@@ -63,6 +67,10 @@ func newResumePlatform(facade pref.Facade,
 			core.ErrWrongResumeFacade
 	}
 
+	if err := relic.Validate(); err != nil {
+		return resume.base.pacify(facade, settings...), err
+	}
+
 	ext := &resumeExtent{
 		baseExtent: baseExtent{
 			fac: facade,
@@ -185,7 +193,7 @@ func (p *resumePlatform) buildForest(relic *pref.Relic, active *core.ActiveState
 		},
 	)
 
-	if forest == nil {
+	if forest == nil || forest.T == nil || forest.R == nil {
 		return nil
 	}
 
-- 
2.43.0


From 9ff5d18255d14e63c2d9310e5304e1d8814ae38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 24/46] fix: waiting for a cancelled concurrent traversal
 includes its active callbacks

---
 synchronise.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/synchronise.go b/synchronise.go
index e34d333..e95f20f 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 
 	"github.com/pkg/errors"
@@ -50,6 +51,9 @@ type concurrent struct {
 	swapper enclave.Swapper
 	pending atomic.Int64
 	idle    chan struct{}
+	mx      sync.Mutex
+	shut    bool
+	active  sync.WaitGroup
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
@@ -93,6 +97,15 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
 			defer c.complete()
 
+			if !c.enter() {
+				return &core.TraverseOutput{
+					Servant: input.Servant,
+					Error:   ctx.Err(),
+				}, ctx.Err()
+			}
+
+			defer c.active.Done()
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -152,12 +165,37 @@ func (c *concurrent) release(ctx context.Context) {
 			select {
 			case <-c.idle:
 			case <-ctx.Done():
+				c.abandon()
 				return
 			}
 		}
 	}()
 }
 
+// enter denotes that a job is about to be executed, which is not permitted once
+// the pool has been abandoned.
+func (c *concurrent) enter() bool {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	if c.shut {
+		return false
+	}
+
+	c.active.Add(1)
+
+	return true
+}
+
+// abandon the jobs that have not been started yet and wait for the others to end
+func (c *concurrent) abandon() {
+	c.mx.Lock()
+	c.shut = true
+	c.mx.Unlock()
+
+	c.active.Wait()
+}
+
 func (c *concurrent) close() {
 	if c.inputCh != nil {
 		close(c.inputCh)
-- 
2.43.0


From ce908b145722ff5e8b1e743db523aabeb7c48bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 25/46] fix: installing a hook discards the chain of the
 previous one

---
 tapable/hooks.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tapable/hooks.go b/tapable/hooks.go
index 58be0a2..388f48f 100644
--- a/tapable/hooks.go
+++ b/tapable/hooks.go
@@ -32,7 +32,7 @@ type (
 		def         F
 		broadcaster B
 		adapter     attacher[F, C, B]
-		listeners   []C
+		listeners   *[]C
 	}
 )
 
@@ -100,17 +100,21 @@ func NewHookCtrl[F, C, B any](
 
 func (c *HookCtrl[F, C, B]) Tap(handler F) {
 	c.handler = handler
+	c.listeners = nil
 }
 
 func (c *HookCtrl[F, C, B]) Chain(handler C) {
 	if c.listeners == nil {
-		c.listeners = []C{handler}
-		c.handler = c.adapter.attach(c.handler, c, c.broadcaster)
+		listeners := &[]C{handler}
+		c.listeners = listeners
+		c.handler = c.adapter.attach(c.handler, ProvideListeners[C](func() []C {
+			return *listeners
+		}), c.broadcaster)
 
 		return
 	}
 
-	c.listeners = append(c.listeners, handler)
+	*c.listeners = append(*c.listeners, handler)
 }
 
 func (c *HookCtrl[F, C, B]) Default() F {
@@ -120,7 +124,3 @@ func (c *HookCtrl[F, C, B]) Default() F {
 func (c *HookCtrl[F, C, B]) Invoke() F {
 	return c.handler
 }
-
-func (c *HookCtrl[F, C, B]) get() []C {
-	return c.listeners
-}
-- 
2.43.0


From 768f86b681e7bbcbb746ffc69f48f6e523b36d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 26/46] fix: invalid poly filter has its own message

---
 locale/messages-errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ca79c3e..ceee2be 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -447,7 +447,7 @@ type PolyFilterIsInvalidError struct {
 
 var ErrPolyFilterIsInvalid = PolyFilterIsInvalidError{
 	LocalisableError: li18ngo.LocalisableError{
-		Data: FilterIsNilErrorTemplData{},
+		Data: PolyFilterIsInvalidTemplData{},
 	},
 }
 
-- 
2.43.0


From 869ba5ced1894cfd05575aaa697a039816599cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 27/46] fix: messages of saved, and not saved traversals tell
 where and why

---
 locale/messages-errors.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ceee2be..954b87b 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -722,13 +722,14 @@ var ErrCoreResumeFsMismatch = CoreResumeFsMismatchError{
 // 🍒 TraversalSaved (dynamic i18n error)
 type TraversalSavedTemplData struct {
 	agenorTemplData
+	Destination string
 }
 
 func (td TraversalSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-saved.age.dynamic-error",
 		Description: "traversal saved due to panic (dynamic error)",
-		Other:       "traversal saved: {{.Field}}",
+		Other:       "traversal saved: {{.Destination}}",
 	}
 }
 
@@ -749,7 +750,9 @@ func (e TraversalSavedError) Unwrap() error {
 func NewTraversalSavedError(destination string, _ error) error {
 	return &TraversalSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalSavedTemplData{},
+			Data: TraversalSavedTemplData{
+				Destination: destination,
+			},
 		},
 		Wrapped:     ErrCorePanicOccurred,
 		Destination: destination,
@@ -759,13 +762,14 @@ func NewTraversalSavedError(destination string, _ error) error {
 // 🍒 TraversalNotSaved (dynamic i18n error)
 type TraversalNotSavedTemplData struct {
 	agenorTemplData
+	Reason string
 }
 
 func (td TraversalNotSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-not-saved.age.dynamic-error",
 		Description: "panic induced traversal not saved (dynamic error)",
-		Other:       "field: {{.Reason}}",
+		Other:       "traversal not saved: {{.Reason}}",
 	}
 }
 
@@ -776,9 +780,7 @@ type TraversalNotSavedError struct {
 }
 
 func (e TraversalNotSavedError) Error() string {
-	return fmt.Sprintf("%v, %v (%v)",
-		e.Wrapped.Error(), li18ngo.Text(e.Data), e.Reason.Error(),
-	)
+	return fmt.Sprintf("%v, %v", e.Wrapped.Error(), li18ngo.Text(e.Data))
 }
 
 func (e TraversalNotSavedError) Unwrap() error {
@@ -788,7 +790,9 @@ func (e TraversalNotSavedError) Unwrap() error {
 func NewTraversalNotSavedError(_, reason error) error {
 	return &TraversalNotSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalNotSavedTemplData{},
+			Data: TraversalNotSavedTemplData{
+				Reason: reason.Error(),
+			},
 		},
 		Wrapped: ErrCorePanicOccurred,
 		Reason:  reason,
-- 
2.43.0


From 5fd47b29c9ab9efcec5892796dbaeb389fd36d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 28/46] fix: removing a handler does not disturb a message
 being delivered

---
 internal/third/bus/broker.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/third/bus/broker.go b/internal/third/bus/broker.go
index c8a3a6d..7033bfe 100644
--- a/internal/third/bus/broker.go
+++ b/internal/third/bus/broker.go
@@ -281,11 +281,12 @@ func (b *Broker) registerTopicHandler(topic string, h Handler) {
 }
 
 func (b *Broker) deregisterTopicHandler(topic, handlerKey string) {
-	l := len(b.topics[topic])
-	for i, h := range b.topics[topic] {
+	handlers := b.topics[topic]
+	for i, h := range handlers {
 		if h.key == handlerKey {
-			b.topics[topic][i] = b.topics[topic][l-1]
-			b.topics[topic] = b.topics[topic][:l-1]
+			// a message may be in the course of being delivered to these
+			// handlers, so leave them as they are
+			b.topics[topic] = append(handlers[:i:i], handlers[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From 59e5646e28c4c5592cc3471a929d8fa58955dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 29/46] fix: listeners of ready made options are notified

---
 life/events.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/life/events.go b/life/events.go
index 0c57d1b..32d2af6 100644
--- a/life/events.go
+++ b/life/events.go
@@ -82,8 +82,15 @@ func (c *Controls) UnmuteAll() {
 }
 
 // Bind attaches the underlying notification controllers to the
-// Events.
+// Events. Listeners already registered with the Events, are carried over.
 func (e *Events) Bind(cs *Controls) {
+	cs.Ascend.inherit(e.Ascend)
+	cs.Begin.inherit(e.Begin)
+	cs.Descend.inherit(e.Descend)
+	cs.End.inherit(e.End)
+	cs.Wake.inherit(e.Wake)
+	cs.Sleep.inherit(e.Sleep)
+
 	e.Ascend = &cs.Ascend
 	e.Begin = &cs.Begin
 	e.Descend = &cs.Descend
@@ -92,6 +99,25 @@ func (e *Events) Bind(cs *Controls) {
 	e.Sleep = &cs.Sleep
 }
 
+// inherit registers the listeners of another event, if there are any
+func (c *NotificationCtrl[F]) inherit(from Event[F]) {
+	other, ok := from.(*NotificationCtrl[F])
+
+	if !ok || other == nil || other == c || !other.subscribed {
+		return
+	}
+
+	if other.listeners == nil {
+		c.On(other.dispatcher.Invoke)
+
+		return
+	}
+
+	for _, listener := range other.listeners {
+		c.On(listener)
+	}
+}
+
 // On subscribes to a life cycle event
 func (c *NotificationCtrl[F]) On(handler F) {
 	if !c.subscribed {
-- 
2.43.0


From f5643bd87fc4c466f0b8a62f6a19070c45ea53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 30/46] fix: adjustments made by a traversal do not accumulate
 in ready made options

---
 internal/opts/get-push.go | 22 ++++++++++++++++++----
 scaffold.go               |  6 ++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/opts/get-push.go b/internal/opts/get-push.go
index 505b9ad..4f90f75 100644
--- a/internal/opts/get-push.go
+++ b/internal/opts/get-push.go
@@ -1,7 +1,9 @@
 package opts
 
 import (
+	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/pref"
+	"github.com/snivilised/agenor/tapable"
 )
 
 func Get(settings ...pref.Option) (o *pref.Options, b *Binder, err error) {
@@ -29,9 +31,21 @@ func apply(o *pref.Options, settings ...pref.Option) (err error) {
 	return err
 }
 
-func Push(o *pref.Options) *Binder {
+// Push prepares ready made options for a traversal. The traversal gets options
+// of its own, so that the adjustments it makes to them do not accumulate in those
+// of the client, which may be used again.
+func Push(from *pref.Options) (o *pref.Options, b *Binder) {
 	binder := NewBinder()
-	o.Events.Bind(binder.Controls)
-
-	return binder
+	from.Events.Bind(binder.Controls)
+
+	own := *from
+	own.Hooks.ReadDirectory = tapable.NewHookCtrl[
+		core.ReadDirectoryHook, core.ChainReadDirectoryHook, tapable.ReadDirectoryBroadcaster,
+	](
+		from.Hooks.ReadDirectory.Invoke(),
+		tapable.GetReadDirectoryBroadcaster,
+		tapable.ReadDirectoryAttacher,
+	)
+
+	return &own, binder
 }
diff --git a/scaffold.go b/scaffold.go
index 83ccd6c..d19951c 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -157,9 +157,11 @@ func (p *primaryPlatform) buildOptions(using *pref.Using,
 ) (enclave.OptionHarvest, error) {
 	return func(ve error) (enclave.OptionHarvest, error) {
 		if using.O != nil {
+			o, binder := opts.Push(using.O)
+
 			return &optionHarvest{
-				o:      using.O,
-				binder: opts.Push(using.O),
+				o:      o,
+				binder: binder,
 			}, ve
 		}
 
-- 
2.43.0


From dc8e12c0be3fce05ae334c814168e6c00284fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 31/46] fix: comparison notices a poly filter that is missing

---
 internal/persist/comparison.go | 40 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/internal/persist/comparison.go b/internal/persist/comparison.go
index d909fd2..6d715ba 100644
--- a/internal/persist/comparison.go
+++ b/internal/persist/comparison.go
@@ -317,17 +317,7 @@ func equalFilterDef(filterName string,
 		)
 	}
 
-	if def.Poly != nil && jdef.Poly != nil {
-		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
-			return err
-		}
-
-		if err := equalFilterDef("poly", &def.Poly.Directory, &jdef.Poly.Directory); err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return equalPolyFilterDef(def.Poly, jdef.Poly)
 }
 
 func equalChildFilterDef(filterName string,
@@ -477,15 +467,27 @@ func equalSampleFilterDef(filterName string,
 		)
 	}
 
-	if def.Poly != nil && jdef.Poly != nil {
-		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
-			return err
-		}
+	return equalPolyFilterDef(def.Poly, jdef.Poly)
+}
 
-		if err := equalFilterDef("poly", &def.Poly.Directory, &jdef.Poly.Directory); err != nil {
-			return err
-		}
+func equalPolyFilterDef(def *core.PolyFilterDef, jdef *json.PolyFilterDef) error {
+	if def == nil && jdef == nil {
+		return nil
 	}
 
-	return nil
+	if def == nil || jdef == nil {
+		return fmt.Errorf("poly-filter-def %w",
+			UnequalPtrError[core.PolyFilterDef, json.PolyFilterDef]{
+				Field: "Poly",
+				Value: def,
+				Other: jdef,
+			},
+		)
+	}
+
+	if err := equalFilterDef("poly", &def.File, &jdef.File); err != nil {
+		return err
+	}
+
+	return equalFilterDef("poly", &def.Directory, &jdef.Directory)
 }
-- 
2.43.0


From 33be851239e9221b5ad57ab0d633d67ec1d50a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 32/46] fix: poly definition of a sample filter is persisted

---
 internal/persist/json-options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/persist/json-options.go b/internal/persist/json-options.go
index c8ed026..b0fdc42 100644
--- a/internal/persist/json-options.go
+++ b/internal/persist/json-options.go
@@ -62,6 +62,7 @@ func ToJSON(o *pref.Options) *json.Options {
 						Pattern:     o.Filter.Sample.Pattern,
 						Scope:       o.Filter.Sample.Scope,
 						Negate:      o.Filter.Sample.Negate,
+						Poly:        NodePolyDefToJSON(o.Filter.Sample.Poly),
 					}
 				},
 				func() *json.SampleFilterDef {
@@ -158,7 +159,7 @@ func FromJSON(jo *json.Options) *pref.Options {
 					Pattern:     jo.Filter.Sample.Pattern,
 					Scope:       jo.Filter.Sample.Scope,
 					Negate:      jo.Filter.Sample.Negate,
-					// TODO:Poly: tbd,
+					Poly:        NodePolyDefFromJSON(jo.Filter.Sample.Poly),
 				}
 			},
 			func() *core.SampleFilterDef {
-- 
2.43.0


From 798b7a55100847361f0a7ac96c39dd03a5ae8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 33/46] fix: saving state that json can't represent is an error

---
 internal/persist/marshaler.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index d848bef..9ebd093 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -66,16 +66,40 @@ func Marshal(request *MarshalRequest) (*MarshalResult, error) {
 		return nil, err
 	}
 
-	if err := (&Comparison{
-		O:  request.O,
-		JO: jo,
-	}).Equals(); err != nil {
+	if err := verify(request, data); err != nil {
 		return result, err
 	}
 
 	return result, request.FS.WriteFile(request.Path, data, request.Perm)
 }
 
+// verify that the encoded data represents what was requested. The encoder
+// does not report text it can't represent (ie which is not valid utf-8), it
+// replaces it; a traversal can't be resumed from such a state.
+func verify(request *MarshalRequest, data []byte) error {
+	var (
+		encoded MarshalResult
+	)
+
+	if err := ejson.Unmarshal(data, &encoded); err != nil {
+		return err
+	}
+
+	for _, text := range []UnequalValueError[string]{
+		{Field: "Tree", Value: request.Active.Tree, Other: encoded.Active.Tree},
+		{Field: "CurrentPath", Value: request.Active.CurrentPath, Other: encoded.Active.CurrentPath},
+	} {
+		if text.Value != text.Other {
+			return fmt.Errorf("active %w", text)
+		}
+	}
+
+	return (&Comparison{
+		O:  request.O,
+		JO: encoded.JO,
+	}).Equals()
+}
+
 func Unmarshal(request *UnmarshalRequest,
 	tampers ...TamperFunc,
 ) (*UnmarshalResult, error) {
-- 
2.43.0


From 4b037f9cf261970d76ed0c17cd582b1341e21ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 34/46] fix: the elapsed time of a finished session no longer
 grows

---
 session.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/session.go b/session.go
index a77f608..867635a 100644
--- a/session.go
+++ b/session.go
@@ -11,11 +11,13 @@ type session struct {
 	sync     synchroniser
 	started  time.Time
 	duration time.Duration
+	finished bool
 	plugins  []enclave.Plugin
 }
 
 func (s *session) start() {
 	s.started = time.Now()
+	s.finished = false
 	s.sync.Ignite(&enclave.Ignition{
 		Session: s,
 	})
@@ -23,6 +25,7 @@ func (s *session) start() {
 
 func (s *session) finish(result *enclave.KernelResult) {
 	s.duration = time.Since(s.started)
+	s.finished = true
 	s.sync.Bye(result)
 }
 
@@ -34,7 +37,13 @@ func (s *session) StartedAt() time.Time {
 	return s.started
 }
 
+// Elapsed is the time taken so far, or once the session has finished, the
+// time it took.
 func (s *session) Elapsed() time.Duration {
+	if s.finished {
+		return s.duration
+	}
+
 	return time.Since(s.started)
 }
 
-- 
2.43.0


From 3f191a77d95081c015c9fded2c5091e4dbca8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 35/46] fix: a depth limit beyond the range of int is no longer
 taken for a small one

---
 internal/level/periscope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/level/periscope.go b/internal/level/periscope.go
index 4f67545..2ec07f4 100644
--- a/internal/level/periscope.go
+++ b/internal/level/periscope.go
@@ -68,7 +68,7 @@ func (p *Periscope) Delta(tree, current string) (err error) {
 }
 
 func (p *Periscope) Descend(maximum uint) bool {
-	if maximum > 0 && p.depth > int(maximum) { //nolint:gosec // ok
+	if maximum > 0 && p.depth > 0 && uint(p.depth) > maximum {
 		return false
 	}
 
-- 
2.43.0


From bf1cb718b8df0ac06c983c548795ceaebeafc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 36/46] fix: saving state never overwrites the state saved by
 another traversal

---
 internal/kernel/author.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 0144c13..7106226 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -3,6 +3,7 @@ package kernel
 import (
 	"fmt"
 	"strings"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/persist"
@@ -10,6 +11,12 @@ import (
 	nef "github.com/snivilised/nefilim"
 )
 
+// saving synchronises the saves of traversals that are running at the same time,
+// so that they don't choose the same file.
+var saving sync.Mutex
+
+const extension = ".json"
+
 type author struct {
 	o     *pref.Options
 	perms core.Permissions
@@ -26,13 +33,23 @@ func (a *author) write(vex vexation) (string, error) {
 	}
 
 	calc := fS.Calc()
-	directory, file := a.destination(vex, calc)
+	directory, name := a.destination(vex, calc)
 
 	if err := fS.MakeDirAll(directory, a.perms.Dir); err != nil {
 		return "", err
 	}
 
-	path := calc.Join(directory, file)
+	saving.Lock()
+	defer saving.Unlock()
+
+	path := calc.Join(directory, name+extension)
+
+	for i := 1; fS.FileExists(path); i++ {
+		// don't overwrite the state saved by another traversal at the same time
+		//
+		path = calc.Join(directory, fmt.Sprintf("%v.%v%v", name, i, extension))
+	}
+
 	active := vapour.active(vex.ancestor(), forest,
 		vex.depth(),
 		static.mediator.Supervisor(),
@@ -51,7 +68,7 @@ func (a *author) write(vex vexation) (string, error) {
 	return path, err
 }
 
-func (a *author) destination(v vexation, calc nef.PathCalc) (directory, file string) {
+func (a *author) destination(v vexation, calc nef.PathCalc) (directory, name string) {
 	mag := v.magnitude()
 	cause := v.cause()
 	now := core.Now()
@@ -61,9 +78,9 @@ func (a *author) destination(v vexation, calc nef.PathCalc) (directory, file str
 		directory = calc.Join(directory, core.ResumeTail)
 	}
 
-	file = fmt.Sprintf("%v.%v.%v.json",
+	name = fmt.Sprintf("%v.%v.%v",
 		mag, cause, now.Format(core.FileSystemTimeFormat),
 	)
 
-	return directory, file
+	return directory, name
 }
-- 
2.43.0


From 232a586efbde13fd75c193b42012b4af56d4ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 37/46] fix: a tree path that is not clean is cleaned before it
 is navigated

---
 internal/kernel/builder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/builder.go b/internal/kernel/builder.go
index daa3c0b..6164d16 100644
--- a/internal/kernel/builder.go
+++ b/internal/kernel/builder.go
@@ -1,6 +1,8 @@
 package kernel
 
 import (
+	"path/filepath"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
@@ -34,9 +36,12 @@ func (fn Builder) Build(inception *Inception) *Artefacts {
 	return fn(inception)
 }
 
+// NavigationTree is the path of the top node. The paths of all the others are
+// derived from it by joining, which cleans them, so it has to be clean too;
+// otherwise it isn't recognised as their ancestor.
 func (i *Inception) NavigationTree() string {
 	if using, ok := i.Facade.(*pref.Using); ok {
-		return using.Tree
+		return filepath.Clean(using.Tree)
 	}
 
 	return i.Harvest.Loaded().State.Tree
-- 
2.43.0


From 4014d3bdc67610c784b0b8e18f800b9f6c8fb6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 38/46] fix: resuming by spawn keeps the entry of the sub tree
 spawned, so links are not followed

---
 internal/enclave/enclave-defs.go       |  2 +-
 internal/feat/resume/strategy-spawn.go |  4 ++--
 internal/kernel/kernel-defs.go         |  2 ++
 internal/kernel/mediator.go            |  5 ++++-
 internal/kernel/navigator-agent.go     | 19 ++++++++++++-------
 5 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 24f1632..23dd11b 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -82,7 +82,7 @@ type (
 		KernelController
 		//
 		Read(path string) ([]fs.DirEntry, error)
-		Spawn(ctx context.Context, tree string) (*KernelResult, error)
+		Spawn(ctx context.Context, tree string, entry fs.DirEntry) (*KernelResult, error)
 		Bridge(active *core.ActiveState)
 		Rise()
 		Supervisor() *Supervisor
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 1a6f8bb..e46649b 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -41,7 +41,7 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 		// top of the tree.
 		//
 		s.complete = true
-		result, err = s.mediator.Spawn(ctx, s.active.Tree)
+		result, err = s.mediator.Spawn(ctx, s.active.Tree, nil)
 
 		return result, genuine(err)
 	}
@@ -127,7 +127,7 @@ func (s *spawnStrategy) seed(ctx context.Context,
 
 	for _, entry := range entries {
 		top := filepath.Join(parent, entry.Name())
-		intermediate, err := s.mediator.Spawn(ctx, top)
+		intermediate, err := s.mediator.Spawn(ctx, top, entry)
 
 		if errors.Is(err, fs.SkipDir) {
 			// for a directory, only its contents are skipped, whereas for a
diff --git a/internal/kernel/kernel-defs.go b/internal/kernel/kernel-defs.go
index 893cf8f..1a19a0a 100644
--- a/internal/kernel/kernel-defs.go
+++ b/internal/kernel/kernel-defs.go
@@ -2,6 +2,7 @@ package kernel
 
 import (
 	"context"
+	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -98,6 +99,7 @@ type (
 	navigationStatic struct {
 		mediator     *mediator
 		tree         string
+		entry        fs.DirEntry // of the tree, if it is a spawned sub tree
 		calc         nef.PathCalc
 		magnitude    string
 		subscription enums.Subscription
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index a7bcdb6..f8f09d8 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -88,12 +88,15 @@ func (m *mediator) Read(path string) ([]fs.DirEntry, error) {
 	return m.o.Hooks.ReadDirectory.Invoke()(m.resources.Forest.T, path)
 }
 
+// Spawn traverses the tree, which is either the one requested by the client, or
+// a sub tree of it, denoted by its entry in the contents of its parent.
 func (m *mediator) Spawn(ctx context.Context,
-	tree string,
+	tree string, entry fs.DirEntry,
 ) (*enclave.KernelResult, error) {
 	return m.impl.Top(ctx, &navigationStatic{
 		mediator:     m,
 		tree:         tree,
+		entry:        entry,
 		calc:         m.resources.Forest.T.Calc(),
 		subscription: m.subscription,
 		magnitude:    m.facade.Magnitude(),
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 233e70b..f93d76c 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -48,6 +48,17 @@ func (n *navigatorAgent) Ignite(ignition *enclave.Ignition) {
 func (n *navigatorAgent) top(ctx context.Context,
 	ns *navigationStatic,
 ) (result *enclave.KernelResult, err error) {
+	if ns.entry != nil {
+		// the same as when reached by travel; its status must not be queried
+		// again, as that would follow a symbolic link.
+		//
+		parent := n.ancestor(ns, ns.calc.Dir(ns.tree))
+		info, ie := ns.entry.Info()
+		err = n.launch(ctx, ns, core.New(ns.tree, ns.entry, info, parent, ie))
+
+		return ns.mediator.impl.Result(ctx), err
+	}
+
 	info, ie := n.ao.hooks.QueryStatus.Invoke()(
 		ns.mediator.resources.Forest.T, ns.tree,
 	)
@@ -61,13 +72,7 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			node := core.Top(ns.tree, info)
-
-			if ns.tree != ns.mediator.tree {
-				node.Parent = n.ancestor(ns, ns.calc.Dir(ns.tree))
-			}
-
-			return n.launch(ctx, ns, node)
+			return n.launch(ctx, ns, core.Top(ns.tree, info))
 		},
 	)
 
-- 
2.43.0


From 2d64bf225946cb7422a269090f58336ee9136321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 39/46] fix: the filter definitions of the client are no longer
 changed by a traversal

---
 internal/filtering/builders.go | 8 +++++---
 internal/filtering/glob-ex.go  | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 8bd412a..38164cc 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -67,12 +67,14 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 		return nil, nil
 	}
 
-	polyDef := definition.Poly
-
-	if polyDef == nil {
+	if definition.Poly == nil {
 		return nil, locale.ErrPolyFilterIsInvalid
 	}
 
+	// the definition belongs to the client, so it is not to be changed
+	//
+	polyDef := *definition.Poly
+
 	// enforce the correct filter scopes
 	//
 	polyDef.File.Scope.Set(enums.ScopeFile)
diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index dcd13e4..5b56aad 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -30,7 +30,7 @@ func createGlobExFilter(def *core.FilterDef,
 
 	// we ignore the scope on the filter because use of this type
 	// of filter implies the correct scope, ie file scope.
-	def.Scope = enums.ScopeFile
+	const scope = enums.ScopeFile
 
 	directoryBase, directoryExclusion := splitGlob(segments[0])
 
@@ -38,7 +38,7 @@ func createGlobExFilter(def *core.FilterDef,
 	filter = &GlobEx{
 		Base: Base{
 			name:            def.Description,
-			scope:           def.Scope,
+			scope:           scope,
 			pattern:         def.Pattern,
 			negate:          def.Negate,
 			ifNotApplicable: ifNotApplicable,
-- 
2.43.0


From 25f8ad5c264d95be25a90b77ba731205c9d43c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 40/46] fix: a poly filter with a custom part is no longer
 replaced by that part

---
 internal/feat/filter/schemes.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/feat/filter/schemes.go b/internal/feat/filter/schemes.go
index 5d3adcc..e3375dd 100644
--- a/internal/feat/filter/schemes.go
+++ b/internal/feat/filter/schemes.go
@@ -2,6 +2,7 @@ package filter
 
 import (
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/pref"
@@ -66,7 +67,7 @@ func binary(o *pref.Options) (primary, nanny scheme) {
 }
 
 func unary(c common) scheme {
-	if c.o.Filter.IsCustomFilteringActive() {
+	if c.o.Filter.IsCustomFilteringActive() && !isPartOfPoly(c.o.Filter.Node) {
 		return &customScheme{
 			common: c,
 		}
@@ -86,3 +87,11 @@ func unary(c common) scheme {
 
 	return nil // only nanny is active
 }
+
+// isPartOfPoly determines whether the custom filter is just a part of the
+// poly filter defined, as opposed to being the node filter itself.
+func isPartOfPoly(def *core.FilterDef) bool {
+	return def != nil && def.Type == enums.FilterTypePoly && def.Poly != nil &&
+		(def.Poly.File.Type == enums.FilterTypeCustom ||
+			def.Poly.Directory.Type == enums.FilterTypeCustom)
+}
-- 
2.43.0


From 3577e469a52578654875b24a67d2d1c5ee9f9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 41/46] fix: the sink is given the sample filter too

---
 internal/feat/filter/scheme-sampler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/feat/filter/scheme-sampler.go b/internal/feat/filter/scheme-sampler.go
index 37570f1..1e00bf2 100644
--- a/internal/feat/filter/scheme-sampler.go
+++ b/internal/feat/filter/scheme-sampler.go
@@ -8,6 +8,7 @@ import (
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/filtering"
 	"github.com/snivilised/agenor/internal/third/lo"
+	"github.com/snivilised/agenor/pref"
 	nef "github.com/snivilised/nefilim"
 )
 
@@ -25,6 +26,12 @@ func (s *samplerScheme) create() error {
 
 	s.filter = filter
 
+	if s.o.Filter.Sink != nil {
+		s.o.Filter.Sink(pref.FilterReply{
+			Sampler: s.filter,
+		})
+	}
+
 	// the filter plugin performs premature filtering (with fs.DirEntry as opposed
 	// to core.Node) on behalf of the sampler.
 	s.o.Hooks.ReadDirectory.Chain(
-- 
2.43.0


From 4a5adfde24f904c6d9f400bb1d05b219bf4e336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 42/46] fix: resume by spawn from an item that has been removed

What follows an item that no longer exists was determined by comparing names
byte by byte, regardless of the sort order in force and of whether files or
directories come first, so items were repeated or missed.
---
 internal/feat/resume/strategy-spawn.go | 66 +++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index e46649b..de5f587 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io/fs"
 	"path/filepath"
+	"slices"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -159,27 +160,66 @@ func (s *spawnStrategy) following(parent, anchor string,
 		return nil, err
 	}
 
+	siblings := s.siblings(entries)
+	at := position(siblings, anchor)
+
+	if at < 0 {
+		// the anchor no longer exists, so something has to take its place in order
+		// to know what follows it.
+		//
+		siblings = s.siblings(append(entries, &placeholder{
+			name:  anchor,
+			isDir: !inclusive || s.active.IsDir,
+		}))
+		at = position(siblings, anchor)
+		inclusive = false
+	}
+
+	return lo.Ternary(inclusive, siblings[max(at, 0):], siblings[at+1:]), nil
+}
+
+// siblings returns those entries that can be visited, in the order in which
+// they would be.
+func (s *spawnStrategy) siblings(entries []fs.DirEntry) []fs.DirEntry {
 	contents := kernel.NewContents(&s.o.Behaviours.Sort, s.o.Hooks.Sort, entries)
 	contents.Sort(enums.EntryTypeAll)
 
-	siblings := contents.All()
-
 	switch s.active.Subscription {
 	case enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles:
-		siblings = contents.Directories()
+		return contents.Directories()
 	}
 
-	for i, entry := range siblings {
-		if entry.Name() == anchor {
-			return lo.Ternary(inclusive, siblings[i:], siblings[i+1:]), nil
-		}
-	}
+	return contents.All()
+}
+
+// position of the entry with the name specified
+func position(entries []fs.DirEntry, name string) int {
+	return slices.IndexFunc(entries, func(entry fs.DirEntry) bool {
+		return entry.Name() == name
+	})
+}
+
+// placeholder takes the place of an item that has been removed since the
+// previous session.
+type placeholder struct {
+	name  string
+	isDir bool
+}
+
+func (p *placeholder) Name() string {
+	return p.name
+}
+
+func (p *placeholder) IsDir() bool {
+	return p.isDir
+}
+
+func (p *placeholder) Type() fs.FileMode {
+	return lo.Ternary(p.isDir, fs.ModeDir, 0)
+}
 
-	// the anchor no longer exists
-	//
-	return lo.Filter(siblings, func(entry fs.DirEntry, _ int) bool {
-		return entry.Name() > anchor
-	}), nil
+func (p *placeholder) Info() (fs.FileInfo, error) {
+	return nil, fs.ErrNotExist
 }
 
 // genuine removes the error that only denotes a skip
-- 
2.43.0


From 01ae2bc0c920ce2e6498951665976500b1937c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 43/46] fix: names that differ by case only are in a definite
 order

The case insensitive sort (the default) left those in whatever order the file
system listed them, and sort.Slice isn't stable.
---
 pref/defaults.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index cec3d14..8e8982a 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -41,10 +41,17 @@ func CaseSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 }
 
 // DefaultCaseInSensitiveSortHook hook function for case insensitive directory traversal. A
-// directory of "a" will be visited before a sibling directory "B".
+// directory of "a" will be visited before a sibling directory "B". Names that
+// differ by case only, are in case sensitive order.
 func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	sort.Slice(entries, func(i, j int) bool {
-		return strings.ToLower(entries[i].Name()) < strings.ToLower(entries[j].Name())
+		a, b := entries[i].Name(), entries[j].Name()
+
+		if x, y := strings.ToLower(a), strings.ToLower(b); x != y {
+			return x < y
+		}
+
+		return a < b
 	})
 }
 
-- 
2.43.0


From d2b26526dd3a6edf313b30b03d50cba684e7ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 44/46] fix: an extended glob whose base contains a line break
 is valid

The pattern that splits it into base and suffixes did not match such a base.
---
 internal/filtering/glob-ex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 5b56aad..cb509be 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -14,7 +14,7 @@ import (
 const (
 	excludeExtSymbol = '!'
 	wildcard         = "*"
-	GlobExPattern    = `^(?P<base>.*?)\.(?P<neg>!)?(?P<ext>[^.]+)$`
+	GlobExPattern    = `(?s)^(?P<base>.*?)\.(?P<neg>!)?(?P<ext>[^.]+)$`
 )
 
 func createGlobExFilter(def *core.FilterDef,
-- 
2.43.0


From c67b7b17b6677b39fae6103bfb6baa8faf78769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 45/46] fix: root item sub path of the root '.' is empty

It was the separator followed by a dot, which is not empty as it is for the
root of any other tree.
---
 pref/defaults.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pref/defaults.go b/pref/defaults.go
index 8e8982a..049108f 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -76,6 +76,10 @@ func difference(parent, child string) string {
 
 // RootItemSubPathHook
 func RootItemSubPathHook(info *core.SubPathInfo) string {
+	if info.Node.Path == info.Tree {
+		return ""
+	}
+
 	return difference(info.Tree, info.Node.Path)
 }
 
-- 
2.43.0


From a4bb6d2fb9684ec78302de6702123e4c2c530ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 46/46] fix: a cancelled concurrent traversal might never end

The pool abandons a job that it is about to send when the context is cancelled,
without giving its worker back, and its idle workers need not be told to stop,
so its input might wait for a worker for ever and the client for its wait
group. The pool is fed regardless and released when that is over.
---
 synchronise.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index e95f20f..7583ac4 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -54,6 +54,8 @@ type concurrent struct {
 	mx      sync.Mutex
 	shut    bool
 	active  sync.WaitGroup
+	feeder  sync.WaitGroup
+	sever   context.CancelFunc
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
@@ -137,8 +139,12 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 	return c.kc.Navigate(ctx)
 }
 
+// open the input of the pool. The pool has to be fed regardless of whether the
+// context has been cancelled, because it loses the worker of a job that it has
+// abandoned, in which case there might not be any left for the next one.
 func (c *concurrent) open(ctx context.Context) {
-	c.inputCh = c.pool.Source(ctx, c.wg)
+	ctx, c.sever = context.WithCancel(context.WithoutCancel(ctx))
+	c.inputCh = c.pool.Source(ctx, &c.feeder)
 }
 
 // complete denotes that a job submitted to the pool has ended
@@ -159,7 +165,8 @@ func (c *concurrent) release(ctx context.Context) {
 
 	go func() {
 		defer c.wg.Done()
-		defer c.pool.Release(ctx)
+		defer c.pool.Release(context.WithoutCancel(ctx))
+		defer c.feeder.Wait()
 
 		for c.pending.Load() > 0 {
 			select {
@@ -194,6 +201,8 @@ func (c *concurrent) abandon() {
 	c.mx.Unlock()
 
 	c.active.Wait()
+	c.feeder.Wait()
+	c.sever()
 }
 
 func (c *concurrent) close() {
-- 
2.43.0

