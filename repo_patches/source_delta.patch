From 24436637ba9d3ace2cfebc4f50923c8ef675d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:09 +0000
Subject: [PATCH 01/76] fix: a key set on an internal splitting node must be
 found again

Set("app.verbose") then Set("app.verb") left the node "app.verb" typed as
a branch, so Get/GetM/GetR/typed getters could not see its value.
---
 radix/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index bf86cf2..0435359 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -245,8 +245,8 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 			}
 		}
 	} else {
-		// hit this node,
-		base.nType |= NTData
+		// hit this node, it's a real key now even if it was a splitting point
+		base.nType |= NTLeaf | NTData
 		node, oldData, base.data = base, base.data, data
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From 9ca0a062d7c118e3d1025553cf6bea49b7fb4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:44 +0000
Subject: [PATCH 02/76] fix: an internal splitting node is not a path

Has/Search/Locate/SetTTL/Remove reported (or removed) 'app.l' in a tree
holding app.lite-mode and app.logging, and Get lost the branch 'app' once
an unrelated 'apple' shared its prefix.
---
 radix/node.go | 15 +++++++++++++++
 radix/trie.go | 16 ++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 0435359..d660066 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -176,6 +176,21 @@ func (s *nodeS[T]) endsWith(ch rune) bool { //nolint:revive
 	return s.path[kl-1] == ch
 }
 
+// isPath tests if this node stands for a path (a key, or the parent of
+// some keys) rather than an internal splitting point, such as the node
+// 'app.l' which is shared by 'app.lite-mode' and 'app.logging'.
+func (s *nodeS[T]) isPath(delimiter rune) bool {
+	if !s.isBranch() || len(s.path) == 0 || s.endsWith(delimiter) {
+		return true
+	}
+	for _, ch := range s.children {
+		if ch.StartsWith(delimiter) {
+			return true
+		}
+	}
+	return false
+}
+
 // func (s *nodeS[T]) endsWithLite(ch rune) bool { //nolint:revive,unused
 // 	return s.path[len(s.path)-1] == ch
 // }
diff --git a/radix/trie.go b/radix/trie.go
index 606e87f..dc2e382 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -214,7 +214,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	found := node != nil && !partialMatched && node.isPath(s.delimiter)
 	state = -1
 	if found {
 		state = 0
@@ -496,7 +496,7 @@ func (s *trieS[T]) Search(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = node != nil && !partialMatched && node.isPath(s.delimiter)
 	return
 }
 
@@ -507,7 +507,7 @@ func (s *trieS[T]) Locate(path string, kvpair KVPair) (node *nodeS[T], branch, p
 	}
 	node, _, partialMatched = s.search(path, kvpair)
 	if node != nil {
-		found = !partialMatched
+		found = !partialMatched && node.isPath(s.delimiter)
 		branch = node.isBranch()
 	}
 	// found, branch = node != nil && !partialMatched, safeIsBranch(node)
@@ -536,7 +536,7 @@ func (s *trieS[T]) Has(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = node != nil && !partialMatched && node.isPath(s.delimiter)
 	return
 }
 
@@ -570,7 +570,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, parent, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	found := node != nil && !partialMatched && node.isPath(s.delimiter)
 	if found {
 		if parent != nil {
 			removed = parent.remove(node)
@@ -618,7 +618,7 @@ func (s *trieS[T]) getNode(path string) (node *nodeS[T], data T, kvpair KVPair,
 	if found {
 		if node.isBranch() {
 			branch = true
-			if !node.endsWith(s.delimiter) {
+			if len(node.path) == 0 || !node.isPath(s.delimiter) {
 				found = false
 			}
 		}
@@ -645,7 +645,7 @@ func (s *trieS[T]) getNodeFast(path string) (node *nodeS[T], err error) {
 	found := node != nil && !partialMatched
 	if found {
 		if node.isBranch() {
-			if !node.endsWith(s.delimiter) {
+			if len(node.path) == 0 || !node.isPath(s.delimiter) {
 				found = false
 			}
 		}
@@ -708,7 +708,7 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 	if found {
 		if node.isBranch() {
 			branch = true
-			if !node.endsWith(s.delimiter) {
+			if len(node.path) == 0 || !node.isPath(s.delimiter) {
 				found = false
 			}
 		}
-- 
2.43.0


From efd90985b4e1563c12c9cb194c979d1456e90dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:18 +0000
Subject: [PATCH 03/76] fix: Remove deletes the key and its children only

Remove("app.verb") also dropped app.verbose, Remove("app") also dropped
apple.*, because the whole radix sub-tree was cut. And a parent path
whose keys were all removed was still reported as existing.
---
 radix/node.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 radix/trie.go |  5 ++---
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index d660066..38b4199 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -180,11 +180,26 @@ func (s *nodeS[T]) endsWith(ch rune) bool { //nolint:revive
 // some keys) rather than an internal splitting point, such as the node
 // 'app.l' which is shared by 'app.lite-mode' and 'app.logging'.
 func (s *nodeS[T]) isPath(delimiter rune) bool {
-	if !s.isBranch() || len(s.path) == 0 || s.endsWith(delimiter) {
+	if !s.isBranch() || len(s.path) == 0 {
 		return true
 	}
+	within := s.endsWith(delimiter)
 	for _, ch := range s.children {
-		if ch.StartsWith(delimiter) {
+		if (within || ch.StartsWith(delimiter)) && ch.hasLeaf() {
+			return true
+		}
+	}
+	return false
+}
+
+// hasLeaf tests if there is any key at or below this node. It's false
+// for a branch whose keys were all removed.
+func (s *nodeS[T]) hasLeaf() bool {
+	if !s.isBranch() {
+		return true
+	}
+	for _, ch := range s.children {
+		if ch.hasLeaf() {
 			return true
 		}
 	}
@@ -209,6 +224,35 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	return
 }
 
+// removePath removes a child and its descendants, but keeps those
+// siblings which just share the leading characters with the child.
+// For example, removing 'app.verb' keeps 'app.verbose'.
+//
+// It returns the removed node, or nil if item is not a child.
+func (s *nodeS[T]) removePath(item *nodeS[T], delimiter rune) (removed *nodeS[T]) {
+	var siblings, children []*nodeS[T]
+	if !item.endsWith(delimiter) {
+		for _, ch := range item.children {
+			if ch.StartsWith(delimiter) {
+				children = append(children, ch)
+			} else {
+				siblings = append(siblings, ch)
+			}
+		}
+	}
+	if len(siblings) == 0 {
+		if s.remove(item) {
+			removed = item
+		}
+		return
+	}
+
+	cp := *item
+	removed, cp.children = &cp, children
+	*item = nodeS[T]{path: item.path, pathS: item.pathS, children: siblings, nType: NTBranch}
+	return
+}
+
 func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	ml := min(len(word), len(s.path))
 	for length < ml && word[length] == s.path[length] {
diff --git a/radix/trie.go b/radix/trie.go
index dc2e382..17b066e 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -573,9 +573,8 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	found := node != nil && !partialMatched && node.isPath(s.delimiter)
 	if found {
 		if parent != nil {
-			removed = parent.remove(node)
-			if removed {
-				nodeRemoved, nodeParent = node, parent
+			if nd := parent.removePath(node, s.delimiter); nd != nil {
+				nodeRemoved, nodeParent, removed = nd, parent, true
 			}
 		} else {
 			logz.Warn("if given path found and return node, its parent MUST NOT be nil", "node", node, "parent", parent)
-- 
2.43.0


From fdfeac9de997c11b65be4680da82c4c44d5e715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:48 +0000
Subject: [PATCH 04/76] fix: the key of a split node is wrong for non-ASCII
 paths

split() cut bytes from pathS by a rune count, so branch keys reported by
Walk/Locate, and used for dropping an expired branch, were garbage.
---
 radix/node.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 38b4199..27f999f 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -324,7 +324,6 @@ func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
 	// 	}()
 	// }
 
-	d := len(s.path) - pos
 	_ = word
 
 	newNode = &nodeS[T]{
@@ -340,7 +339,7 @@ func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
 	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
 
 	s.path = s.path[:pos]
-	s.pathS = s.pathS[:len(s.pathS)-d] // s.pathS[:pos] //
+	s.pathS = strings.TrimSuffix(s.pathS, string(newNode.path))
 	s.children = []*nodeS[T]{newNode}
 	s.nType = NTBranch
 	s.description = ""
-- 
2.43.0


From a7cf3b30da1222e12571a9af9f2dc0cd43a3b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:56 +0000
Subject: [PATCH 05/76] fix: SetComment/SetTag on an absent path must not touch
 another key

SetTag("app.verb") in a tree holding app.verbose only returned true and
tagged app.verbose, against "nothing happens if the path cannot be found".
---
 radix/trie.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 17b066e..b18b43a 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -452,8 +452,8 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = node != nil && !partialMatched && node.isPath(s.delimiter); ok {
 		node.description, node.comment = description, comment
 	}
 	return
@@ -466,8 +466,8 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = node != nil && !partialMatched && node.isPath(s.delimiter); ok {
 		node.tag = tag
 	}
 	return
-- 
2.43.0


From 543097e5838f45909be3515bcb4ad884e67b0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:09 +0000
Subject: [PATCH 06/76] fix: GetM/GetR return exactly the keys at or below the
 path

- GetM(path) dropped the middle segments of deep keys
  (GetM("a.b") gave {d:..} for a.b.c.d)
- GetM("") on a prefixed store cut the wrong characters or panicked
- GetR/GetM("app") also returned keys like apple.x
- a key below another key was lost in the nested map, by the random map
  iteration order, and could be written into a stored map value
---
 radix/cvter.go | 155 ++++++++++++++++++++-----------------------------
 1 file changed, 64 insertions(+), 91 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 9a0f345..98fe5cb 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -366,7 +366,14 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
 
+		base := s.Join(s.prefix, path)
+		if found {
+			base = nodeX.pathS
+		}
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
+			if _, within := s.relKey(path, base); !within {
+				return // it just shares the leading characters with base
+			}
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
 				// For a trie like:
 				//
@@ -420,10 +427,6 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1 // s.prefix + '.'
-		}
 		s.root.Walk(func(path, fragment string, node Node[T]) {
 			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
 				if putter.filterFn != nil {
@@ -433,8 +436,8 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 				}
 				if putter.keepPrefix {
 					ret[path] = node.Data()
-				} else if prelen <= len(path) {
-					ret[path[prelen+1:]] = node.Data()
+				} else if key, within := s.relKey(path, s.prefix); within && path != s.prefix {
+					ret[key] = node.Data()
 				}
 			}
 		})
@@ -447,19 +450,21 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 	nodeX, branch, partialMatched, found = s.Locate(path, nil)
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
-		putter := prefixPutter[T]{prefix: strings.Split(s.Join(s.prefix, path), string(s.delimiter))}
+		putter := prefixPutter[T]{}
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1
+		base := s.Join(s.prefix, path)
+		if found {
+			base = nodeX.pathS
 		}
-		prelen += len(path) + 1
-		prelen--
-		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
+		logz.Verbose("[GetM] loop subtree and return as a map", "path", base)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
+				key, within := s.relKey(path, base)
+				if !within {
+					return // it just shares the leading characters with base
+				}
 				logz.Verbose("  - put into map", "path", path, "fragment", fragment)
 				if putter.filterFn != nil {
 					if !putter.filterFn(node) {
@@ -467,61 +472,73 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 					}
 				}
 				if putter.keepPrefix {
-					putter.put(ret, path, string(s.delimiter), node.Data())
-				} else if prelen+1 == len(path) {
-					putter.put(ret, fragment, string(s.delimiter), node.Data())
-				} else if prelen < len(path) {
-					putter.put(ret, path[prelen+1:], string(s.delimiter), node.Data())
+					key = path
 				}
+				ret[key] = node.Data()
 			}
 		})
+		ret = s.splitCompactKeys(ret)
 		logz.Verbose("[GetM] ", "ret", ret)
-		if putter.noFlatten {
-			ret = s.splitCompactKeys(ret)
-		}
 	}
 	return
 }
 
+// relKey strips the leading path 'base' from a key. It returns false if
+// the key is neither base itself nor one of its descendants.
+//
+// For base itself, its last segment will be returned.
+func (s *trieS[T]) relKey(key, base string) (rel string, within bool) {
+	delimiter := string(s.delimiter)
+	if base == "" {
+		return key, true
+	}
+	if key == base {
+		if i := strings.LastIndex(key, delimiter); i >= 0 {
+			key = key[i+len(delimiter):]
+		}
+		return key, true
+	}
+	if !strings.HasSuffix(base, delimiter) {
+		base += delimiter
+	}
+	return strings.CutPrefix(key, base)
+}
+
 func (s *trieS[T]) MustM(path string, opts ...MOpt[T]) (ret map[string]any) {
 	ret, _ = s.GetM(path, opts...)
 	return
 }
 
+// splitCompactKeys splits the dotted keys and builds the nested sub-maps.
+//
+// If a key and its parent are both in the map, like 'app.dump' and
+// 'app.dump.to', the parent can't be a value and a sub-map at the same
+// time, so the rest of the key ('dump.to') is kept as is.
 func (s *trieS[T]) splitCompactKeys(in map[string]any) (out map[string]any) {
 	out = make(map[string]any)
+	delimiter := string(s.delimiter)
 	for k, v := range in {
-		if strings.ContainsRune(k, s.delimiter) {
-			a := strings.Split(k, string(s.delimiter))
-			s.submap(out, a, v)
-		} else {
-			out[k] = v
+		m, pos := out, 0
+		for {
+			i := strings.Index(k[pos:], delimiter)
+			if i < 0 {
+				break
+			}
+			if _, conflicted := in[k[:pos+i]]; conflicted {
+				break
+			}
+			sub, ok := m[k[pos:pos+i]].(map[string]any)
+			if !ok {
+				sub = make(map[string]any)
+				m[k[pos:pos+i]] = sub
+			}
+			m, pos = sub, pos+i+len(delimiter)
 		}
+		m[k[pos:]] = v
 	}
 	return
 }
 
-func (s *trieS[T]) submap(src map[string]any, keys []string, v any) {
-	if len(keys) == 0 {
-		return
-	}
-	if len(keys) == 1 {
-		src[keys[0]] = v
-		return
-	}
-
-	k, rest := keys[0], keys[1:]
-	if m1, ok := src[k]; ok {
-		if m2, ok := m1.(map[string]any); ok {
-			s.submap(m2, rest, v)
-		}
-	} else {
-		m2 := make(map[string]any)
-		s.submap(m2, rest, v)
-		src[k] = m2
-	}
-}
-
 // func (s *trieS[T]) mergemap(m map[string]any, key string, v map[string]any) {}
 
 // func runeToString(runes ...rune) string { return string(runes) }
@@ -623,55 +640,11 @@ type FilterFn[T any] func(node Node[T]) bool // used by GetM, MustM, ...
 type MOpt[T any] func(s *prefixPutter[T]) // used by GetM, MustM, ...
 
 type prefixPutter[T any] struct {
-	prefix     []string
 	keepPrefix bool // constructing the result map by keeping prefix structure?
 	noFlatten  bool // split key like 'app.logging.files' as nested sub-map
 	filterFn   FilterFn[T]
 }
 
-func (s *prefixPutter[T]) put(m map[string]any, prefix, delimiter string, v any) {
-	keys := strings.Split(prefix, delimiter)
-	if s.keepPrefix {
-		s.putKeys(m, keys, v)
-		return
-	}
-
-	if len(keys) >= len(s.prefix) {
-		kk := keys[len(s.prefix):]
-		if len(kk) > 0 {
-			s.putKeys(m, kk, v)
-		} else {
-			kk = keys[len(s.prefix)-1:]
-			s.putKeys(m, kk, v)
-		}
-		return
-	}
-	s.putKeys(m, keys, v)
-}
-
-func (s *prefixPutter[T]) putKeys(m map[string]any, keys []string, v any) {
-	if len(keys) == 0 {
-		return
-	}
-	if len(keys) == 1 {
-		m[keys[0]] = v
-		return
-	}
-
-	k, rest := keys[0], keys[1:]
-	if c, ok := m[k]; ok {
-		if cm, ok := c.(map[string]any); ok {
-			s.putKeys(cm, rest, v)
-			// } else {
-			// 	// ? panic
-		}
-	} else {
-		cm := make(map[string]any)
-		m[k] = cm
-		s.putKeys(cm, rest, v)
-	}
-}
-
 //
 
 func (s *trieS[T]) GetString(path string, defaultVal ...string) (ret string, err error) {
-- 
2.43.0


From 65ff32f333538cceb1e38ecca4fbf9f48885e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:17 +0000
Subject: [PATCH 07/76] fix: Dup/Clone lost description, comment and tag of
 every node

---
 radix/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 27f999f..2b33715 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -616,9 +616,12 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	newNode = &nodeS[T]{
-		path:  s.path,
-		pathS: s.pathS,
-		nType: s.nType,
+		path:        s.path,
+		pathS:       s.pathS,
+		description: s.description,
+		comment:     s.comment,
+		tag:         s.tag,
+		nType:       s.nType,
 	}
 
 	newNode.children = make([]*nodeS[T], 0, len(s.children))
-- 
2.43.0


From c3be1a75726fed635f2720aaf256e332f6bcdb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:24 +0000
Subject: [PATCH 08/76] fix: Store.RecursiveMode recursed into itself forever

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 78b5ab8..1959d4b 100644
--- a/store.go
+++ b/store.go
@@ -485,7 +485,7 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
 func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
 func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
-func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
+func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
 // 'holder', typically 'holder' could be a struct.
-- 
2.43.0


From 7d56d14dbe01030b111b58478030ad13c7df5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:31 +0000
Subject: [PATCH 09/76] fix: SetNode ignored its tag argument

---
 radix/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/trie.go b/radix/trie.go
index b18b43a..bf31411 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -411,6 +411,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	node.tag = tag
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
-- 
2.43.0


From e8c7d1a597ca2b7c1462ebfd255472e630c78fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:55 +0000
Subject: [PATCH 10/76] fix: SetEx invokes its callback exactly once

It was not invoked for the first key of a tree, and once per tree level
for a nested one.
---
 radix/node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 2b33715..2b65679 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -266,6 +266,9 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	if ourLen == 0 {
 		if wordLen > 0 && len(s.children) == 0 {
 			node = base.insertAsLeaf(word, fullPath, data)
+			if cb != nil {
+				cb(fullPath, nil, node, trie)
+			}
 			return
 		}
 	}
@@ -292,10 +295,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 			var n Node[T]
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
-				node = nn
-				if cb != nil {
-					cb(fullPath, oldData, node, trie)
-				}
+				node = nn // and cb was invoked there
 			}
 		} else {
 			node = base.insertAsLeaf(word, fullPath, data)
-- 
2.43.0


From 4e171f4f07d3e09f1fd4b93818c7a3041da2d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:55 +0000
Subject: [PATCH 11/76] fix: Update on an existing key wiped its value

---
 radix/trie.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/radix/trie.go b/radix/trie.go
index bf31411..a3f89b0 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -441,6 +441,10 @@ func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	if node, _, partialMatched := s.search(path, nil); node != nil && !partialMatched && node.pathS == path && !node.isBranch() {
+		cb(node, node.Data())
+		return
+	}
 	var v T
 	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
 	cb(node, old)
-- 
2.43.0


From a9afe5a4c877ad4528c629ce0d2caa6e43ee39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 12/76] fix: Store.Merge on a prefixed store ignored its prefix

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 1959d4b..221752a 100644
--- a/store.go
+++ b/store.go
@@ -298,7 +298,7 @@ func (s *storeS) Merge(pathAt string, data map[string]any) (err error) {
 	// 	return
 	// }
 
-	err = s.loadMap(data, pathAt, false, nil)
+	err = s.loadMap(data, s.join(s.Prefix(), pathAt), false, nil)
 	// s.tryOnSet(pathAt, true, old, data)
 	return
 }
-- 
2.43.0


From 6b2b3743c4d0c15ac0d9632c0964ae9e39f691de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 13/76] fix: Trie.Merge misplaced nested maps and slices, and
 panicked on nil

Nested maps were put at the top level instead of below pathAt, slices got
the prefix twice, and a nil value panicked.
---
 radix/load.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/radix/load.go b/radix/load.go
index 5d1896c..8a93be8 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -68,7 +68,7 @@ func (s *trieS[T]) loadMap(m map[string]any) (err error) {
 func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k string, v any) { //nolint:revive,unparam
 	switch vv := v.(type) {
 	case map[string]any:
-		ec.Attach(s.withPrefixReplacedImpl(k).loadMap(vv))
+		ec.Attach(s.withPrefixImpl(k).loadMap(vv))
 	case []map[string]any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
@@ -81,10 +81,6 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 	case []any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
-			if s.prefix != "" {
-				buf = append(buf, s.prefix...)
-				buf = append(buf, byte(s.delimiter))
-			}
 			buf = append(buf, k...)
 			buf = append(buf, byte(s.delimiter))
 			buf = strconv.AppendInt(buf, int64(i), 10)
@@ -92,6 +88,10 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 			buf = buf[:0]
 		}
 	default:
-		s.Set(k, v.(T))
+		if t, ok := v.(T); ok || v == nil {
+			s.Set(k, t)
+		} else {
+			ec.Attach(errors.New("cannot merge %q: unexpected type %T", s.Join(s.prefix, k), v))
+		}
 	}
 }
-- 
2.43.0


From dca520f18519f8ba36edd73b894249422b0ce00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:04 +0000
Subject: [PATCH 14/76] fix: Store.Close stops pending TTL jobs

---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index 221752a..cf4ed1a 100644
--- a/store.go
+++ b/store.go
@@ -221,6 +221,9 @@ func (s *storeS) Close() {
 	for _, c := range s.closers {
 		c.Close()
 	}
+	if c, ok := s.Trie.(Peripheral); ok {
+		c.Close() // stop the pending TTL jobs
+	}
 }
 
 // MustGet is a shortcut to Get without error returning.
-- 
2.43.0


From ba97fa647c78244ad3166f56f9cae4a3a6ed6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:04 +0000
Subject: [PATCH 15/76] fix: do not start a TTL service for each prefixed copy

After the first SetTTL, every WithPrefix/Merge/Load leaked a goroutine
per copy which can never be stopped.
---
 radix/trie.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index a3f89b0..165df55 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -111,18 +111,6 @@ func newttls[T any](t *trieS[T]) *TTL[T] {
 	return s
 }
 
-func (s *TTL[T]) dupS() *TTL[T] {
-	ctx, cancel := context.WithCancel(context.Background())
-	n := &TTL[T]{
-		treevec: []*trieS[T]{s.treevec[0]},
-		cancel:  cancel,
-		done:    ctx.Done(),
-		adder:   make(chan ttljobS[T]),
-	}
-	go n.run()
-	return n
-}
-
 func (s *TTL[T]) Close() {
 	s.cancel()
 }
@@ -248,10 +236,7 @@ func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //n
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
 	}
-	if s.ttlpresent.Load() > 0 {
-		newTrie.ttls = s.ttls.dupS()
-		newTrie.ttlpresent.Add(1)
-	}
+	// the TTL service will be started for newTrie at its first SetTTL
 	return
 }
 
-- 
2.43.0


From b2677e96c12a248c1b3ae02edde80abc71b17768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 16/76] fix: a TTL job expires the key it was set for, and
 nothing else

- after the node was split by a later Set, the job hit the shared prefix
  node and dropped or missed the wrong keys
- a branch TTL set by a prefixed store joined the prefix twice
- expiring a key raced with setting it again
- Dump could deadlock with an expiring key (recursive read lock)
---
 radix/node.go | 56 +++++++++++++++++++++++++++++++++++++++------------
 radix/trie.go | 47 +++++++++++++++++++++++++++++-------------
 2 files changed, 76 insertions(+), 27 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 2b65679..49d0719 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -29,7 +29,14 @@ type nodeS[T any] struct {
 	comment     string
 	tag         any
 	nType       nodeType
-	rw          *sync.RWMutex
+	rw          *nodeLock[T] // present if the node has TTL jobs
+}
+
+// nodeLock guards the Data and Tag field of a node which has TTL jobs. It
+// follows the node's content while the node is being split.
+type nodeLock[T any] struct {
+	sync.RWMutex
+	node *nodeS[T]
 }
 
 var _ Node[any] = (*nodeS[any])(nil) // assertion helper
@@ -42,7 +49,7 @@ func (s *nodeS[T]) isEmpty() bool       { return s.nType&NTData == 0 }        //
 func (s *nodeS[T]) Modified() bool      { return s.nType&NTModified != 0 }    // modification state
 func (s *nodeS[T]) Description() string { return s.description }              // description field
 func (s *nodeS[T]) Comment() string     { return s.comment }                  // comment field
-func (s *nodeS[T]) Tag() any            { return s.tag }                      // tag field
+func (s *nodeS[T]) Tag() (tag any)      { s.readLockFor(func(s *nodeS[T]) { tag = s.tag }); return }
 func (s *nodeS[T]) Key() string         { return s.pathS }                    // key field is the full path of this node
 func (s *nodeS[T]) KeyPiece() string    { return string(s.path) }             // key piece field for this node
 func (s *nodeS[T]) IsLeaf() bool        { return s.nType&NTMask == NTLeaf }   // leaf node?
@@ -75,16 +82,18 @@ func (s *nodeS[T]) lockFor(cb func(*nodeS[T])) { //nolint:revive
 // To clear the state, using ResetModified;
 // Or flip the state with ToggleModified.
 func (s *nodeS[T]) SetModified(b bool) { //nolint:revive
-	if b {
-		s.nType |= NTModified
-	} else {
-		s.nType &= ^NTModified
-	}
+	s.lockFor(func(s *nodeS[T]) {
+		if b {
+			s.nType |= NTModified
+		} else {
+			s.nType &= ^NTModified
+		}
+	})
 }
 
 // ToggleModified flips the modified state.
 func (s *nodeS[T]) ToggleModified() {
-	s.nType ^= NTModified
+	s.lockFor(func(s *nodeS[T]) { s.nType ^= NTModified })
 	// if s.Modified() {
 	// 	s.nType &= ^NTModified
 	// } else {
@@ -94,7 +103,7 @@ func (s *nodeS[T]) ToggleModified() {
 
 // ResetModified clears the modified state.
 func (s *nodeS[T]) ResetModified() {
-	s.nType &= ^NTModified
+	s.lockFor(func(s *nodeS[T]) { s.nType &= ^NTModified })
 }
 
 // Data returns the Data field of a node.
@@ -150,7 +159,7 @@ func (s *nodeS[T]) SetTag(tag any) { //nolint:revive
 	// if s.isBranch() {
 	// 	return
 	// }
-	s.tag = tag
+	s.lockFor(func(s *nodeS[T]) { s.tag = tag })
 }
 
 func (s *nodeS[T]) StartsWith(ch rune) bool { //nolint:revive
@@ -247,8 +256,16 @@ func (s *nodeS[T]) removePath(item *nodeS[T], delimiter rune) (removed *nodeS[T]
 		return
 	}
 
+	lock := item.rw
+	if lock != nil {
+		lock.Lock()
+		defer lock.Unlock()
+	}
 	cp := *item
 	removed, cp.children = &cp, children
+	if lock != nil {
+		lock.node = removed // the TTL jobs are bound to the removed key
+	}
 	*item = nodeS[T]{path: item.path, pathS: item.pathS, children: siblings, nType: NTBranch}
 	return
 }
@@ -305,8 +322,11 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node, it's a real key now even if it was a splitting point
-		base.nType |= NTLeaf | NTData
-		node, oldData, base.data = base, base.data, data
+		node = base
+		base.lockFor(func(base *nodeS[T]) {
+			base.nType |= NTLeaf | NTData
+			oldData, base.data = base.data, data
+		})
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
 		}
@@ -326,6 +346,12 @@ func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
 
 	_ = word
 
+	lock := s.rw
+	if lock != nil {
+		lock.Lock()
+		defer lock.Unlock()
+	}
+
 	newNode = &nodeS[T]{
 		path:        s.path[pos:],
 		pathS:       s.pathS, // [pos:], // s.pathS[len(s.pathS)-d:],
@@ -335,6 +361,10 @@ func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
 		comment:     s.comment,
 		tag:         s.tag,
 		nType:       s.nType,
+		rw:          lock,
+	}
+	if lock != nil {
+		lock.node, s.rw = newNode, nil // the TTL jobs are bound to the original key
 	}
 	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
 
@@ -582,7 +612,7 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 				_, _ = sb.WriteString(" ")
 				_, _ = sb.WriteString(s.pathS)
 				_, _ = sb.WriteString(" => ")
-				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.Data())))
+				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.data)))
 			}
 
 			if s.comment != "" {
diff --git a/radix/trie.go b/radix/trie.go
index 165df55..183e2f2 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -92,7 +92,7 @@ type wheelS struct {
 type wheelAction func(ctx context.Context, w *wheelS)
 
 type ttljobS[T any] struct {
-	node     *nodeS[T]
+	lock     *nodeLock[T]
 	duration time.Duration
 	action   OnTTLRinging[T]
 }
@@ -119,9 +119,31 @@ func (s *TTL[T]) Tree() Trie[T] { return s.treevec[0] }
 
 func (s *TTL[T]) Add(nd *nodeS[T], duration time.Duration, action OnTTLRinging[T]) {
 	if nd.rw == nil {
-		nd.rw = &sync.RWMutex{}
+		nd.rw = &nodeLock[T]{node: nd}
+	}
+	s.adder <- ttljobS[T]{lock: nd.rw, duration: duration, action: action}
+}
+
+func (s *TTL[T]) ring(job ttljobS[T]) {
+	if job.action != nil {
+		job.lock.RLock()
+		nd := job.lock.node
+		job.lock.RUnlock()
+		job.action(s, nd)
+	}
+
+	job.lock.Lock()
+	nd := job.lock.node
+	branch, path := nd.isBranch(), nd.pathS
+	if !branch {
+		var t T
+		nd.data, nd.tag = t, nil
+	}
+	job.lock.Unlock()
+
+	if branch {
+		s.treevec[0].removeEx(path)
 	}
-	s.adder <- ttljobS[T]{node: nd, duration: duration, action: action}
 }
 
 func (s *TTL[T]) run() {
@@ -137,18 +159,10 @@ func (s *TTL[T]) run() {
 		timer := time.NewTimer(job.duration)
 		go func(timer *time.Timer, job ttljobS[T]) {
 			defer timer.Stop()
-			// defer func() { job.node.rw = nil }()
 			for {
 				select {
 				case <-timer.C:
-					if job.action != nil {
-						job.action(s, job.node)
-					}
-					if job.node.isBranch() {
-						s.treevec[0].Remove(job.node.pathS)
-					} else {
-						job.node.SetEmpty()
-					}
+					s.ring(job)
 					return
 				case <-s.done:
 					return
@@ -396,7 +410,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
-	node.tag = tag
+	node.SetTag(tag)
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
@@ -458,7 +472,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	}
 	node, _, partialMatched := s.search(path, nil)
 	if ok = node != nil && !partialMatched && node.isPath(s.delimiter); ok {
-		node.tag = tag
+		node.SetTag(tag)
 	}
 	return
 }
@@ -559,6 +573,11 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	return s.removeEx(path)
+}
+
+// removeEx deletes the full path, the current prefix is ignored.
+func (s *trieS[T]) removeEx(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
 	node, parent, partialMatched := s.search(path, nil)
 	found := node != nil && !partialMatched && node.isPath(s.delimiter)
 	if found {
-- 
2.43.0


From a9fedeb237f86f44b7db0bed6b35aaf57fd75898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:46 +0000
Subject: [PATCH 17/76] fix: Load dropped the desc, comment and tag given by a
 provider

---
 store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index cf4ed1a..da9641a 100644
--- a/store.go
+++ b/store.go
@@ -333,14 +333,14 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 	node, oldData = s.Trie.Set(path, data)
 	loading := s.inLoading()
 	user := !loading
+	if node != nil && onSet != nil {
+		onSet(node)
+	}
 	if user {
 		if oldData != nil {
 			createOrModify = false // set it to is-modifying instead of is-creating
 		}
 		if node != nil {
-			if onSet != nil {
-				onSet(node)
-			}
 			node.SetModified(true)
 		}
 	}
-- 
2.43.0


From 46d9b29a71012d20d5ce187701190e558ca44f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:53 +0000
Subject: [PATCH 18/76] fix: the mergingMapOrLoading argument of the change
 handlers was inverted

---
 store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index da9641a..4efd85d 100644
--- a/store.go
+++ b/store.go
@@ -355,7 +355,7 @@ func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrMod
 	retryPN:
 		for _, cb := range ptr.onNewHandlers {
 			if cb != nil {
-				cb(path, data, user)
+				cb(path, data, !user)
 			}
 		}
 		if ptr.parent != nil {
@@ -368,7 +368,7 @@ func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrMod
 retryPM:
 	for _, cb := range ptr.onChangeHandlers {
 		if cb != nil {
-			cb(path, data, oldData, user)
+			cb(path, data, oldData, !user)
 		}
 	}
 	if ptr.parent != nil {
@@ -383,7 +383,7 @@ func (s *storeS) tryOnDelete(path string, user bool, oldData any, node, np radix
 retryPD:
 	for _, cb := range ptr.OnDeleteHandlers {
 		if cb != nil {
-			cb(path, oldData, user)
+			cb(path, oldData, !user)
 		}
 	}
 	if ptr.parent != nil {
-- 
2.43.0


From 0d5ff9fa39a1c4a0de2b63b8c5d56ad3283d36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:00 +0000
Subject: [PATCH 19/76] fix: loading a stream-only provider always failed with
 a JSON error

---
 load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/load.go b/load.go
index e7afe7e..f114db5 100644
--- a/load.go
+++ b/load.go
@@ -527,6 +527,7 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 				}
 				s.setKV(k, fp.MustValue(k), true, nil)
 			}
+			return map[string]ValPkg{}, nil, nil // all loaded, nothing to decode
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 6bce73e9d8b532c331c018f88f8a483fb11dfab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:07 +0000
Subject: [PATCH 20/76] fix: Store.Close did not close the watchers loaded with
 a store prefix

---
 load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/load.go b/load.go
index f114db5..ce36c54 100644
--- a/load.go
+++ b/load.go
@@ -125,6 +125,10 @@ func (s *storeS) Load(ctx context.Context, opts ...LoadOpt) (wr Writeable, err e
 			wr = loader
 			if !loader.noWatch {
 				loader.startWatch(ctx, loader)
+				if loader.storeS != s {
+					// s is the one which will be closed by user
+					s.closers = append(s.closers, loader.storeS.closers...)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 69c843e44d8c0a877adf370fb1cdb103f2ed4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:59 +0000
Subject: [PATCH 21/76] fix: gob codec lost the encoded bytes and broke at its
 second use

---
 codecs/gob/gob.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index bf39032..1a7fc57 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -17,27 +17,19 @@ func New() store.Codec {
 	return &ldr{}
 }
 
-type ldr struct {
-	dec *gob.Decoder
-	enc *gob.Encoder
-}
+type ldr struct{}
 
 // Unmarshal parses the given bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if p.dec == nil {
-		r := bytes.NewReader(b)
-		p.dec = gob.NewDecoder(r)
-	}
-	err = p.dec.Decode(&data)
+	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&data)
 	return
 }
 
 // Marshal marshals the given config map to bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
-	if p.enc == nil {
-		sb := bytes.NewBuffer(data)
-		p.enc = gob.NewEncoder(sb)
+	var buf bytes.Buffer
+	if err = gob.NewEncoder(&buf).Encode(m); err == nil {
+		data = buf.Bytes()
 	}
-	err = p.enc.Encode(m)
 	return
 }
-- 
2.43.0


From f520826fa50dde89435548c248a15ddf0bf2bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:59 +0000
Subject: [PATCH 22/76] fix: json codec discarded the pretty-printed result

---
 codecs/json/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/json/json.go b/codecs/json/json.go
index d2fa6d4..0ba10c9 100644
--- a/codecs/json/json.go
+++ b/codecs/json/json.go
@@ -44,7 +44,7 @@ func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
 // Marshal marshals the given config map to JSON bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	if p.pretty {
-		json.MarshalIndent(m, "", "  ")
+		return json.MarshalIndent(m, "", "  ")
 	}
 	return json.Marshal(m)
 }
-- 
2.43.0


From c479515a1b125e37e4049f2d582db5a0e46871ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:28 +0000
Subject: [PATCH 23/76] fix: env/flags providers reported end-of-list while
 keys remain

Next() had its condition inverted, it returned no key at all and then
indexed out of range; and a name which is fully stripped panicked.
---
 providers/env/env.go     | 4 ++--
 providers/flags/flags.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 8478937..40f8627 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -122,7 +122,7 @@ func (s *pvdr) prepare() (err error) {
 			if s.stripped != "" {
 				k = strings.TrimPrefix(k, s.stripped)
 			}
-			if s.underline2dot {
+			if s.underline2dot && k != "" {
 				k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 			}
 			if s.cb != nil {
@@ -150,7 +150,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index b6700b9..167bd9c 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -106,7 +106,7 @@ func (s *pvdr) prepare() (err error) {
 		if s.stripped != "" {
 			k = strings.TrimPrefix(k, s.stripped)
 		}
-		if s.underline2dot {
+		if s.underline2dot && k != "" {
 			k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 		}
 		if s.cb != nil {
@@ -144,7 +144,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
-- 
2.43.0


From c831bc439e1a671c09bb5f922d2a34285becc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:33 +0000
Subject: [PATCH 24/76] fix: flags.WithPrefix never matched a lower-case flag
 name

---
 providers/flags/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 167bd9c..359e18e 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -40,7 +40,7 @@ func WithCodec(codec store.Codec) Opt {
 	}
 }
 
-// WithPrefix gives a filter prefix for env var name.
+// WithPrefix gives a filter prefix for flag name.
 //
 // Only names which have given prefix are available.
 // Such as app.Name()+"_".
@@ -48,7 +48,7 @@ func WithCodec(codec store.Codec) Opt {
 // The filtered names will be stripped by strippedPrefix.
 func WithPrefix(prefix string, strippedPrefix ...string) Opt {
 	return func(s *pvdr) {
-		s.prefix = strings.ToUpper(prefix)
+		s.prefix = prefix
 		for _, ss := range strippedPrefix {
 			s.stripped = ss
 		}
-- 
2.43.0


From e47e7c4613c1217a7ef5a4d2f06ccd0f7d26c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:25 +0000
Subject: [PATCH 25/76] fix: a ':id' pattern is not matched depending on value
 length and siblings

A value longer or shorter than the identifier name made matchR skip or
overrun the rest of the path, and a literal sibling sharing some leading
characters shadowed the identifier (and vice versa).
---
 radix/node.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 49d0719..5fad693 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -534,21 +534,35 @@ masterLoop:
 	} else if minL >= l && srcMatchedL == minL && minL > 0 && srcMatchedL > 0 && !partialMatched {
 		matched, child, parent = true, base, parentNode
 	}
-	if minL < wl {
+	// dstMatchedL: how many runes in word are consumed by this node, it's
+	// not minL once an identifier (":id") matched.
+	if dstMatchedL == 0 {
+		dstMatchedL = minL
+	}
+	if dstMatchedL < wl {
 		if len(base.children) == 0 {
 			matched, partialMatched = false, true
 			return
 		}
 
-		// restPart := word[minL:]
-		if dstMatchedL == 0 {
-			dstMatchedL = minL
-		}
+		// a literal child takes precedence over an identifier (":id", "*path"),
+		// but it must not shadow the others if it isn't a matched path.
+		var hit, pm bool
+		var node, prnt *nodeS[T]
 		restPart := word[dstMatchedL:]
-		for _, child = range base.children {
-			matched, partialMatched, child, parent = child.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
-			if matched || partialMatched {
-				return
+		matched, partialMatched, child, parent = false, false, nil, nil
+		for _, idents := range []bool{false, true} {
+			for _, ch := range base.children {
+				if (ch.StartsWith(':') || ch.StartsWith('*')) != idents {
+					continue
+				}
+				hit, pm, node, prnt = ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
+				if hit && node.isPath(mctx.delimiter) {
+					return true, false, node, prnt
+				}
+				if (hit || pm) && child == nil {
+					matched, partialMatched, child, parent = hit, pm, node, prnt
+				}
 			}
 		}
 	}
-- 
2.43.0


From 21a4f576ae986bda86fee8a50186eb4fdf0f1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 26/76] fix: BR() lookup stopped at a partial matched node

A key such as 'son.names', or an internal splitting node, stopped looking
'name' up along with the parents of 'son'.
---
 radix/trie.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 183e2f2..5d952fd 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -742,11 +742,10 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
-	if matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
-		return child, prnt, pm
-	}
+	matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair)
 
-	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
+	// a partial matched node isn't the target, keep looking up its parents
+	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) && !(matched && child.isPath(s.delimiter)) {
 		w := word
 	retry:
 		a := strings.Split(w, string(s.delimiter))
@@ -754,15 +753,17 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			a = append(a[:len(a)-2], a[len(a)-1])
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched || pm {
-				return child, prnt, pm
+			if matched, _, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched && child.isPath(s.delimiter) {
+				return child, prnt, false
 			}
 			goto retry
 		}
 	}
 
-	found = nil
-	return
+	if matched || pm {
+		return child, prnt, pm
+	}
+	return nil, nil, false
 }
 
 func getMatchCtx(word string, delimiter rune) *matchCtx {
-- 
2.43.0


From 43e2fbf61ee60d208071d9f536d46868fea2c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:39 +0000
Subject: [PATCH 27/76] fix: Remove/SetTag/SetComment/SetTTL on a BR() store
 changed a parent's key

RecursiveUp is a lookup feature (Get, Query and Locate), changing an
absent key must not touch the inherited one.
---
 radix/trie.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 5d952fd..fc6712e 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -215,7 +215,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
+	node, _, partialMatched := s.searchExact(path)
 	found := node != nil && !partialMatched && node.isPath(s.delimiter)
 	state = -1
 	if found {
@@ -456,7 +456,7 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
+	node, _, partialMatched := s.searchExact(path)
 	if ok = node != nil && !partialMatched && node.isPath(s.delimiter); ok {
 		node.description, node.comment = description, comment
 	}
@@ -470,7 +470,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, partialMatched := s.search(path, nil)
+	node, _, partialMatched := s.searchExact(path)
 	if ok = node != nil && !partialMatched && node.isPath(s.delimiter); ok {
 		node.SetTag(tag)
 	}
@@ -578,7 +578,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 
 // removeEx deletes the full path, the current prefix is ignored.
 func (s *trieS[T]) removeEx(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
-	node, parent, partialMatched := s.search(path, nil)
+	node, parent, partialMatched := s.searchExact(path)
 	found := node != nil && !partialMatched && node.isPath(s.delimiter)
 	if found {
 		if parent != nil {
@@ -766,6 +766,17 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 	return nil, nil, false
 }
 
+// searchExact is a search without RecursiveMode, for the operations which
+// change the node at the given path.
+func (s *trieS[T]) searchExact(word string) (found, parent *nodeS[T], partialMatched bool) {
+	mctx := getMatchCtx(word, s.delimiter)
+	defer putBack(mctx)
+	if matched, pm, child, prnt := s.root.search(mctx, []rune(word), false, nil, nil); matched || pm {
+		return child, prnt, pm
+	}
+	return
+}
+
 func getMatchCtx(word string, delimiter rune) *matchCtx {
 	s := matchCtxPool.Get().(*matchCtx)
 	s.fullPath, s.delimiter = word, delimiter
-- 
2.43.0


From 61ed044fd342d8ce7fa48f9ccb7be07d86eb28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:29 +0000
Subject: [PATCH 28/76] fix: SmartDurationString panicked for a duration like
 math.MinInt64

---
 internal/times/dur.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/times/dur.go b/internal/times/dur.go
index bece5dc..af1f909 100644
--- a/internal/times/dur.go
+++ b/internal/times/dur.go
@@ -23,15 +23,16 @@ func SmartDurationString(d time.Duration) string { return SmartDurationStringEx(
 func SmartDurationStringEx(d time.Duration, frac bool) string { return shortDur(d, frac) }
 
 func shortDur(d time.Duration, frac bool) string {
-	var arr [32]byte
+	var arr [40]byte
 	n := shortDurFormat(&arr, d, frac)
 	return string(arr[n:])
 }
 
-func shortDurFormat(buf *[32]byte, d time.Duration, useFrac bool) int { //nolint:revive
+func shortDurFormat(buf *[40]byte, d time.Duration, useFrac bool) int { //nolint:revive
 	// Largest time is:
 	// 2540400h10m10.000000000s
 	// 2540400h10m10s999ms999us999na
+	// -106751d23h47m16s854ms775µs808ns
 	w := len(buf)
 
 	u := uint64(d)
-- 
2.43.0


From f8072a3e787abd10bcfec11eacf0f606a32d591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 29/76] fix: FromKibiBytes/FromKiloBytes panicked on a
 non-ASCII space

---
 radix/cvter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 98fe5cb..89e1b0c 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	logz "github.com/hedzr/logg/slog"
 
@@ -1525,12 +1526,12 @@ func (s *trieS[T]) FromKibiBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKibiBytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKibiBytes(r)
 		}
 	}
@@ -1611,12 +1612,12 @@ func (s *trieS[T]) FromKiloBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKilobytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKilobytes(r)
 		}
 	}
-- 
2.43.0


From cd3f5f757a75c1e4a3bc83c5c2496fcc839705fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 30/76] fix: Op.UnmarshalText rejected the text made by
 Op.MarshalText

---
 op.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op.go b/op.go
index 7244e83..c2b1f58 100644
--- a/op.go
+++ b/op.go
@@ -33,7 +33,7 @@ var opStringsRev = map[string]Op{
 
 func (s *Op) UnmarshalText(text []byte) error {
 	// panic("implement me")
-	op, ok := opStringsRev[string(text)]
+	op, ok := opStringsRev[strings.ToLower(string(text))]
 	if ok {
 		*s = op
 		return nil
@@ -46,7 +46,7 @@ func (s *Op) MarshalText() (text []byte, err error) {
 	if ok {
 		return []byte(strings.ToUpper(sz)), nil
 	}
-	return []byte(fmt.Sprintf("Op(%d)", s)), nil
+	return []byte(fmt.Sprintf("Op(%d)", *s)), nil
 }
 
 func (s *Op) Marshal() []byte {
-- 
2.43.0


From b3140a02e25a1a0e9a53c032b2497e6ea88d1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:11 +0000
Subject: [PATCH 31/76] fix: cvt.Deflate lost or misplaced the keys below a key
 with a value

---
 internal/cvt/cvt.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 5c9778a..15980e7 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -2,6 +2,7 @@ package cvt
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hedzr/evendeep"
@@ -70,29 +71,38 @@ func normalize(m map[string]any, key string, val any, worker func(k string, v an
 func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 	data = make(map[string]any)
 
-	// Iterate through the flat conf map.
-	for k, v := range m {
+	// Iterate through the flat conf map, the parents go first.
+	keyset := make([]string, 0, len(m))
+	for k := range m {
+		keyset = append(keyset, k)
+	}
+	sort.Strings(keyset)
+	for _, k := range keyset {
 		var (
+			v    = m[k]
 			keys = strings.Split(k, delimiter)
 			next = data
 		)
 
 		// Iterate through key parts, for eg:, parent.child.key
 		// will be ["parent", "child", "key"]
-		for _, kk := range keys[:len(keys)-1] {
+		for len(keys) > 1 {
+			kk := keys[0]
 			sub, ok := next[kk]
 			if !ok {
 				// If the key does not exist in the map, create it.
 				sub = make(map[string]any)
 				next[kk] = sub
 			}
-			if n, ok1 := sub.(map[string]any); ok1 {
-				next = n
+			n, ok1 := sub.(map[string]any)
+			if !ok1 {
+				break // kk is a value too, keep the rest as a flat key
 			}
+			next, keys = n, keys[1:]
 		}
 
 		// Assign the value.
-		next[keys[len(keys)-1]] = v
+		next[strings.Join(keys, delimiter)] = v
 	}
 	return
 }
-- 
2.43.0


From 3df743cf1ec54af646315d0239642d255c91d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 32/76] fix: concurrent To/GetSectionFrom/Dup on independent
 stores raced

They shared the stateful default controllers of evendeep (concurrent map
writes), even if the stores have nothing in common.
---
 internal/cvt/cvt.go |  2 +-
 radix/cvter.go      |  4 ++--
 radix/node.go       | 10 +++++++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 15980e7..5ebf3e6 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -11,7 +11,7 @@ import (
 // Copy copies a map deeply
 func Copy(m map[string]any) (data map[string]any) {
 	data = make(map[string]any)
-	evendeep.Copy(&m, &data)
+	_ = evendeep.New().CopyTo(&m, &data)
 	return
 }
 
diff --git a/radix/cvter.go b/radix/cvter.go
index 89e1b0c..4010542 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -561,8 +561,8 @@ func (s *trieS[T]) splitCompactKeys(in map[string]any) (out map[string]any) {
 // removed yaml.v3, instead with evendeep.
 func reloadIntoStruct(m map[string]any, holder any, opts ...evendeep.Opt) (err error) {
 	// evendeep.Copy(m, holder) // evendeep.WithAutoExpandStructOpt, // evendeep.WithSyncAdvancingOpt,
-	defer evendeep.DefaultCopyController.SaveFlagsAndRestore()()
-	err = evendeep.DefaultCopyController.CopyTo(m, holder, opts...)
+	// evendeep.DefaultCopyController is stateful, so it isn't safe for concurrent uses.
+	err = evendeep.New().CopyTo(m, holder, opts...)
 	return
 }
 
diff --git a/radix/node.go b/radix/node.go
index 5fad693..6c116bb 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -673,7 +673,7 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		newNode.children = append(newNode.children, ch.Dup())
 	}
 
-	data := evendeep.MakeClone(s.Data())
+	data := makeClone(s.Data())
 	switch z := data.(type) {
 	case *T:
 		newNode.data = *z
@@ -683,6 +683,14 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	return
 }
 
+var cloneMutex sync.Mutex // evendeep.MakeClone isn't safe for concurrent uses
+
+func makeClone(data any) any {
+	cloneMutex.Lock()
+	defer cloneMutex.Unlock()
+	return evendeep.MakeClone(data)
+}
+
 // Walk navigates all of chilren from this node.
 func (s *nodeS[T]) Walk(cb func(path, fragment string, node Node[T])) { //nolint:revive
 	s.walk(0, cb)
-- 
2.43.0


From 642ceb4446573c08471e0cabc2c1e123dfe6bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:09 +0000
Subject: [PATCH 33/76] fix: a partial match of a ':id' pattern must return the
 matched node

---
 radix/node.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 6c116bb..383bb76 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -541,8 +541,7 @@ masterLoop:
 	}
 	if dstMatchedL < wl {
 		if len(base.children) == 0 {
-			matched, partialMatched = false, true
-			return
+			return false, true, base, parentNode
 		}
 
 		// a literal child takes precedence over an identifier (":id", "*path"),
-- 
2.43.0


From a906cbfb1a9c5503989eef2fa1248f8b3ec61cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:38 +0000
Subject: [PATCH 34/76] fix: a stored ':id' key is found by itself even if a
 '*path' sibling exists

---
 radix/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 383bb76..0f570a6 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -550,9 +550,9 @@ masterLoop:
 		var node, prnt *nodeS[T]
 		restPart := word[dstMatchedL:]
 		matched, partialMatched, child, parent = false, false, nil, nil
-		for _, idents := range []bool{false, true} {
+		for _, literal := range []bool{true, false} {
 			for _, ch := range base.children {
-				if (ch.StartsWith(':') || ch.StartsWith('*')) != idents {
+				if ch.StartsWith(restPart[0]) != literal {
 					continue
 				}
 				hit, pm, node, prnt = ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
-- 
2.43.0


From 5560a97a8902ec553ab8de04bb635a50865b0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:05 +0000
Subject: [PATCH 35/76] fix: setting a new key on an internal splitting node
 returned a zero value as old data

---
 radix/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 0f570a6..9ce3db5 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -324,8 +324,11 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		// hit this node, it's a real key now even if it was a splitting point
 		node = base
 		base.lockFor(func(base *nodeS[T]) {
+			if !base.isBranch() {
+				oldData = base.data
+			}
 			base.nType |= NTLeaf | NTData
-			oldData, base.data = base.data, data
+			base.data = data
 		})
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From 4c4fb46988c6df0733bea7dcb81575dfc69f39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:12 +0000
Subject: [PATCH 36/76] fix: the first Set on a parent path fired OnChange
 instead of OnNew

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 4efd85d..c8d7b1f 100644
--- a/store.go
+++ b/store.go
@@ -257,7 +257,7 @@ func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any)
 		oldData = old
 	}
 
-	node, oldData = s.setKV(path, data, !found, nil)
+	node, oldData = s.setKV(path, data, !found || branch, nil)
 	// s.tryOnSet(path, false, old, data)
 	return
 }
-- 
2.43.0


From a6bc33259db19478ebd00e4078b80968fa419c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:20 +0000
Subject: [PATCH 37/76] fix: a key modified by user was still dirty after it
 had been reloaded

---
 store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/store.go b/store.go
index c8d7b1f..9cf0793 100644
--- a/store.go
+++ b/store.go
@@ -343,6 +343,8 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 		if node != nil {
 			node.SetModified(true)
 		}
+	} else if node != nil {
+		node.SetModified(false) // the loaded value is clean
 	}
 	s.tryOnSet(path, user, oldData, data, createOrModify)
 	return
-- 
2.43.0


From ce30f31c8e65eafdb068fb4280678bff3c2d237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:18 +0000
Subject: [PATCH 38/76] fix: yaml codec Load always failed, and the opened
 files were not closed

---
 codecs/json/json.go | 1 +
 codecs/yaml/yaml.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/codecs/json/json.go b/codecs/json/json.go
index 0ba10c9..65a756a 100644
--- a/codecs/json/json.go
+++ b/codecs/json/json.go
@@ -57,6 +57,7 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 	if f, err = os.Open(file); err != nil {
 		return
 	}
+	defer f.Close()
 	dec := json.NewDecoder(f)
 	if err = dec.Decode(&data); err != nil {
 		return
diff --git a/codecs/yaml/yaml.go b/codecs/yaml/yaml.go
index 9d26376..93302db 100644
--- a/codecs/yaml/yaml.go
+++ b/codecs/yaml/yaml.go
@@ -33,8 +33,9 @@ func (l *ldr) Load(file string) (data map[string]any, err error) {
 	if f, err = os.Open(file); err != nil {
 		return
 	}
+	defer f.Close()
 	dec := yamlv3.NewDecoder(f)
-	if err = dec.Decode(data); err != nil {
+	if err = dec.Decode(&data); err != nil {
 		return
 	}
 	return
@@ -45,9 +46,15 @@ func (l *ldr) Save(file string, data map[string]any) (err error) {
 	if f, err = os.Create(file); err != nil {
 		return
 	}
+	defer func() {
+		if e := f.Close(); err == nil {
+			err = e
+		}
+	}()
 	enc := yamlv3.NewEncoder(f)
 	if err = enc.Encode(data); err != nil {
 		return
 	}
+	err = enc.Close()
 	return
 }
-- 
2.43.0


From 5ec9294b07611e47faf5760c8c0cb838fd836deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:09 +0000
Subject: [PATCH 39/76] fix: typed getters hang on []byte values and panic on
 malformed lists/maps

---
 radix/cvter.go |   2 +-
 radix/cvts.go  | 132 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 133 insertions(+), 1 deletion(-)
 create mode 100644 radix/cvts.go

diff --git a/radix/cvter.go b/radix/cvter.go
index 4010542..40b2591 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -322,7 +322,7 @@ var _ TypedGetters[any] = (*trieS[any])(nil) // assertion helper
 
 var _ Trie[any] = (*trieS[any])(nil) // assertion helper
 
-var converter = evendeep.Cvt{}
+var converter cvtS
 
 func (s *trieS[T]) StartsWith(path string, r rune) bool {
 	node, _, _, found := s.Locate(path, nil)
diff --git a/radix/cvts.go b/radix/cvts.go
new file mode 100644
index 0000000..4711d71
--- /dev/null
+++ b/radix/cvts.go
@@ -0,0 +1,132 @@
+package radix
+
+import (
+	"time"
+
+	"github.com/hedzr/evendeep"
+)
+
+// cvtS converts the data of a node by evendeep.Cvt.
+//
+// evendeep.Cvt loops forever while it formats a []byte as text, and it panics
+// on some malformed lists and maps such as "[,]" or "{a:}". So the bytes are
+// passed to it as text, and data which can't be converted yields the zero
+// value, as it's with any other unrecognized data.
+type cvtS struct {
+	evendeep.Cvt
+}
+
+func cvtTo[R any](fn func(data any) R, data any) (ret R) {
+	defer func() {
+		if e := recover(); e != nil {
+			var zero R
+			ret = zero
+		}
+	}()
+	return fn(data)
+}
+
+// cvtText replaces the byte slices in data with their text.
+func cvtText(data any) any {
+	if b, ok := data.([]byte); ok {
+		return string(b)
+	}
+	return cvtTextElems(data)
+}
+
+// cvtTextElems does it for the elements of a container only, and never
+// touches the container itself.
+func cvtTextElems(data any) any {
+	switch z := data.(type) {
+	case []any:
+		for i, v := range z {
+			if _, ok := v.([]byte); ok {
+				c := append([]any(nil), z...)
+				for ; i < len(c); i++ {
+					c[i] = cvtText(c[i])
+				}
+				return c
+			}
+		}
+	case map[string]any:
+		for _, v := range z {
+			if _, ok := v.([]byte); ok {
+				c := make(map[string]any, len(z))
+				for k, it := range z {
+					c[k] = cvtText(it)
+				}
+				return c
+			}
+		}
+	case map[any]any:
+		for _, v := range z {
+			if _, ok := v.([]byte); ok {
+				c := make(map[any]any, len(z))
+				for k, it := range z {
+					c[k] = cvtText(it)
+				}
+				return c
+			}
+		}
+	}
+	return data
+}
+
+func (s *cvtS) String(data any) string                 { return cvtTo(s.Cvt.String, cvtText(data)) }
+func (s *cvtS) StringSlice(data any) []string          { return cvtTo(s.Cvt.StringSlice, cvtTextElems(data)) }
+func (s *cvtS) StringMap(data any) map[string]string   { return cvtTo(s.Cvt.StringMap, cvtText(data)) }
+func (s *cvtS) Bool(data any) bool                     { return cvtTo(s.Cvt.Bool, cvtText(data)) }
+func (s *cvtS) BoolSlice(data any) []bool              { return cvtTo(s.Cvt.BoolSlice, cvtTextElems(data)) }
+func (s *cvtS) BoolMap(data any) map[string]bool       { return cvtTo(s.Cvt.BoolMap, cvtText(data)) }
+func (s *cvtS) Int(data any) int64                     { return cvtTo(s.Cvt.Int, cvtText(data)) }
+func (s *cvtS) Int64Slice(data any) []int64            { return cvtTo(s.Cvt.Int64Slice, cvtTextElems(data)) }
+func (s *cvtS) Int32Slice(data any) []int32            { return cvtTo(s.Cvt.Int32Slice, cvtTextElems(data)) }
+func (s *cvtS) Int16Slice(data any) []int16            { return cvtTo(s.Cvt.Int16Slice, cvtTextElems(data)) }
+func (s *cvtS) Int8Slice(data any) []int8              { return cvtTo(s.Cvt.Int8Slice, cvtTextElems(data)) }
+func (s *cvtS) IntSlice(data any) []int                { return cvtTo(s.Cvt.IntSlice, cvtTextElems(data)) }
+func (s *cvtS) Int64Map(data any) map[string]int64     { return cvtTo(s.Cvt.Int64Map, cvtText(data)) }
+func (s *cvtS) Int32Map(data any) map[string]int32     { return cvtTo(s.Cvt.Int32Map, cvtText(data)) }
+func (s *cvtS) Int16Map(data any) map[string]int16     { return cvtTo(s.Cvt.Int16Map, cvtText(data)) }
+func (s *cvtS) Int8Map(data any) map[string]int8       { return cvtTo(s.Cvt.Int8Map, cvtText(data)) }
+func (s *cvtS) IntMap(data any) map[string]int         { return cvtTo(s.Cvt.IntMap, cvtText(data)) }
+func (s *cvtS) Uint(data any) uint64                   { return cvtTo(s.Cvt.Uint, cvtText(data)) }
+func (s *cvtS) Uint64Slice(data any) []uint64          { return cvtTo(s.Cvt.Uint64Slice, cvtTextElems(data)) }
+func (s *cvtS) Uint32Slice(data any) []uint32          { return cvtTo(s.Cvt.Uint32Slice, cvtTextElems(data)) }
+func (s *cvtS) Uint16Slice(data any) []uint16          { return cvtTo(s.Cvt.Uint16Slice, cvtTextElems(data)) }
+func (s *cvtS) Uint8Slice(data any) []uint8            { return cvtTo(s.Cvt.Uint8Slice, cvtTextElems(data)) }
+func (s *cvtS) UintSlice(data any) []uint              { return cvtTo(s.Cvt.UintSlice, cvtTextElems(data)) }
+func (s *cvtS) Uint64Map(data any) map[string]uint64   { return cvtTo(s.Cvt.Uint64Map, cvtText(data)) }
+func (s *cvtS) Uint32Map(data any) map[string]uint32   { return cvtTo(s.Cvt.Uint32Map, cvtText(data)) }
+func (s *cvtS) Uint16Map(data any) map[string]uint16   { return cvtTo(s.Cvt.Uint16Map, cvtText(data)) }
+func (s *cvtS) Uint8Map(data any) map[string]uint8     { return cvtTo(s.Cvt.Uint8Map, cvtText(data)) }
+func (s *cvtS) UintMap(data any) map[string]uint       { return cvtTo(s.Cvt.UintMap, cvtText(data)) }
+func (s *cvtS) Float64(data any) float64               { return cvtTo(s.Cvt.Float64, cvtText(data)) }
+func (s *cvtS) Float32(data any) float32               { return cvtTo(s.Cvt.Float32, cvtText(data)) }
+func (s *cvtS) Float64Slice(data any) []float64        { return cvtTo(s.Cvt.Float64Slice, cvtTextElems(data)) }
+func (s *cvtS) Float32Slice(data any) []float32        { return cvtTo(s.Cvt.Float32Slice, cvtTextElems(data)) }
+func (s *cvtS) Float64Map(data any) map[string]float64 { return cvtTo(s.Cvt.Float64Map, cvtText(data)) }
+func (s *cvtS) Float32Map(data any) map[string]float32 { return cvtTo(s.Cvt.Float32Map, cvtText(data)) }
+func (s *cvtS) Complex128(data any) complex128         { return cvtTo(s.Cvt.Complex128, cvtText(data)) }
+func (s *cvtS) Complex64(data any) complex64           { return cvtTo(s.Cvt.Complex64, cvtText(data)) }
+func (s *cvtS) Complex128Slice(data any) []complex128 {
+	return cvtTo(s.Cvt.Complex128Slice, cvtTextElems(data))
+}
+func (s *cvtS) Complex64Slice(data any) []complex64 {
+	return cvtTo(s.Cvt.Complex64Slice, cvtTextElems(data))
+}
+func (s *cvtS) Complex128Map(data any) map[string]complex128 {
+	return cvtTo(s.Cvt.Complex128Map, cvtText(data))
+}
+func (s *cvtS) Complex64Map(data any) map[string]complex64 {
+	return cvtTo(s.Cvt.Complex64Map, cvtText(data))
+}
+func (s *cvtS) Duration(data any) time.Duration { return cvtTo(s.Cvt.Duration, cvtText(data)) }
+func (s *cvtS) DurationSlice(data any) []time.Duration {
+	return cvtTo(s.Cvt.DurationSlice, cvtTextElems(data))
+}
+func (s *cvtS) DurationMap(data any) map[string]time.Duration {
+	return cvtTo(s.Cvt.DurationMap, cvtText(data))
+}
+func (s *cvtS) Time(data any) time.Time               { return cvtTo(s.Cvt.Time, cvtText(data)) }
+func (s *cvtS) TimeSlice(data any) []time.Time        { return cvtTo(s.Cvt.TimeSlice, cvtTextElems(data)) }
+func (s *cvtS) TimeMap(data any) map[string]time.Time { return cvtTo(s.Cvt.TimeMap, cvtText(data)) }
-- 
2.43.0


From 053a2991a3cdf12783173a0433b63e5bcac1bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:31 +0000
Subject: [PATCH 40/76] fix: Dup keeps type and content of every value
 (pointers, nil, empty and unexported data)

---
 radix/clone.go | 113 +++++++++++++++++++++++++++++++++++++++++++++++++
 radix/node.go  |  17 +-------
 2 files changed, 115 insertions(+), 15 deletions(-)
 create mode 100644 radix/clone.go

diff --git a/radix/clone.go b/radix/clone.go
new file mode 100644
index 0000000..f01e3cd
--- /dev/null
+++ b/radix/clone.go
@@ -0,0 +1,113 @@
+package radix
+
+import (
+	"reflect"
+)
+
+// makeClone makes a deep copy of the data of a node.
+//
+// The copy has always the same type and content as the original one. The
+// maps, slices, arrays, pointers and the exported fields of structs are
+// copied recursively; functions, channels and the objects without any
+// exported field (such as *regexp.Regexp, *time.Location) are shared.
+func makeClone(data any) any {
+	if data == nil {
+		return nil
+	}
+	return cloneValue(reflect.ValueOf(data), make(map[cloneRef]reflect.Value)).Interface()
+}
+
+// cloneRef identifies a copied pointer or map, so that a cyclic reference
+// can be rebuilt.
+type cloneRef struct {
+	ptr uintptr
+	typ reflect.Type
+}
+
+func cloneValue(v reflect.Value, seen map[cloneRef]reflect.Value) reflect.Value { //nolint:revive
+	switch v.Kind() {
+	case reflect.Pointer:
+		if v.IsNil() || opaque(v.Type().Elem()) {
+			return v
+		}
+		key := cloneRef{v.Pointer(), v.Type()}
+		if n, ok := seen[key]; ok {
+			return n
+		}
+		n := reflect.New(v.Type().Elem())
+		if n.Type() != v.Type() {
+			n = n.Convert(v.Type())
+		}
+		seen[key] = n
+		n.Elem().Set(cloneValue(v.Elem(), seen))
+		return n
+
+	case reflect.Interface:
+		if v.IsNil() {
+			return v
+		}
+		n := reflect.New(v.Type()).Elem()
+		n.Set(cloneValue(v.Elem(), seen))
+		return n
+
+	case reflect.Map:
+		if v.IsNil() {
+			return v
+		}
+		key := cloneRef{v.Pointer(), v.Type()}
+		if n, ok := seen[key]; ok {
+			return n
+		}
+		n := reflect.MakeMapWithSize(v.Type(), v.Len())
+		seen[key] = n
+		for it := v.MapRange(); it.Next(); {
+			n.SetMapIndex(it.Key(), cloneValue(it.Value(), seen))
+		}
+		return n
+
+	case reflect.Slice:
+		if v.IsNil() {
+			return v
+		}
+		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+		if k := v.Type().Elem().Kind(); k <= reflect.Complex128 || k == reflect.String {
+			reflect.Copy(n, v)
+			return n
+		}
+		for i := 0; i < v.Len(); i++ {
+			n.Index(i).Set(cloneValue(v.Index(i), seen))
+		}
+		return n
+
+	case reflect.Array:
+		n := reflect.New(v.Type()).Elem()
+		for i := 0; i < v.Len(); i++ {
+			n.Index(i).Set(cloneValue(v.Index(i), seen))
+		}
+		return n
+
+	case reflect.Struct:
+		n := reflect.New(v.Type()).Elem()
+		n.Set(v)
+		for i := 0; i < v.NumField(); i++ {
+			if v.Type().Field(i).IsExported() {
+				n.Field(i).Set(cloneValue(v.Field(i), seen))
+			}
+		}
+		return n
+	}
+	return v
+}
+
+// opaque tells if typ is a struct whose content isn't accessible.
+func opaque(typ reflect.Type) bool {
+	if typ.Kind() != reflect.Struct || typ.NumField() == 0 {
+		return false
+	}
+	for i := 0; i < typ.NumField(); i++ {
+		if typ.Field(i).IsExported() {
+			return false
+		}
+	}
+	return true
+}
diff --git a/radix/node.go b/radix/node.go
index 9ce3db5..4d5672f 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -6,7 +6,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/hedzr/evendeep"
 	logz "github.com/hedzr/logg/slog"
 )
 
@@ -675,24 +674,12 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		newNode.children = append(newNode.children, ch.Dup())
 	}
 
-	data := makeClone(s.Data())
-	switch z := data.(type) {
-	case *T:
-		newNode.data = *z
-	case T:
-		newNode.data = z
+	if data, ok := makeClone(s.Data()).(T); ok {
+		newNode.data = data
 	}
 	return
 }
 
-var cloneMutex sync.Mutex // evendeep.MakeClone isn't safe for concurrent uses
-
-func makeClone(data any) any {
-	cloneMutex.Lock()
-	defer cloneMutex.Unlock()
-	return evendeep.MakeClone(data)
-}
-
 // Walk navigates all of chilren from this node.
 func (s *nodeS[T]) Walk(cb func(path, fragment string, node Node[T])) { //nolint:revive
 	s.walk(0, cb)
-- 
2.43.0


From 4fd676dde295f89f7dd56e8c2466fb0c1cf463c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:54 +0000
Subject: [PATCH 41/76] fix: To(&map) and the maps provider take exponential
 time on deeply nested data

---
 {radix => internal/cvt}/clone.go |  6 +++---
 internal/cvt/cvt.go              |  9 ++++-----
 radix/cvter.go                   | 23 +++++++++++++++++++++++
 radix/node.go                    |  4 +++-
 4 files changed, 33 insertions(+), 9 deletions(-)
 rename {radix => internal/cvt}/clone.go (96%)

diff --git a/radix/clone.go b/internal/cvt/clone.go
similarity index 96%
rename from radix/clone.go
rename to internal/cvt/clone.go
index f01e3cd..59e1837 100644
--- a/radix/clone.go
+++ b/internal/cvt/clone.go
@@ -1,16 +1,16 @@
-package radix
+package cvt
 
 import (
 	"reflect"
 )
 
-// makeClone makes a deep copy of the data of a node.
+// Clone makes a deep copy of data.
 //
 // The copy has always the same type and content as the original one. The
 // maps, slices, arrays, pointers and the exported fields of structs are
 // copied recursively; functions, channels and the objects without any
 // exported field (such as *regexp.Regexp, *time.Location) are shared.
-func makeClone(data any) any {
+func Clone(data any) any {
 	if data == nil {
 		return nil
 	}
diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 5ebf3e6..fe75bab 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -4,15 +4,14 @@ import (
 	"fmt"
 	"sort"
 	"strings"
-
-	"github.com/hedzr/evendeep"
 )
 
 // Copy copies a map deeply
 func Copy(m map[string]any) (data map[string]any) {
-	data = make(map[string]any)
-	_ = evendeep.New().CopyTo(&m, &data)
-	return
+	if m == nil {
+		return make(map[string]any)
+	}
+	return Clone(m).(map[string]any)
 }
 
 // Normalize make a map formal with nested map[string]any objects.
diff --git a/radix/cvter.go b/radix/cvter.go
index 40b2591..f377516 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -10,6 +10,8 @@ import (
 	logz "github.com/hedzr/logg/slog"
 
 	"github.com/hedzr/evendeep"
+
+	"github.com/hedzr/store/internal/cvt"
 )
 
 // TypedGetters makes a formal specification for Trie[any]
@@ -561,11 +563,32 @@ func (s *trieS[T]) splitCompactKeys(in map[string]any) (out map[string]any) {
 // removed yaml.v3, instead with evendeep.
 func reloadIntoStruct(m map[string]any, holder any, opts ...evendeep.Opt) (err error) {
 	// evendeep.Copy(m, holder) // evendeep.WithAutoExpandStructOpt, // evendeep.WithSyncAdvancingOpt,
+	if h, ok := holder.(*map[string]any); ok && h != nil {
+		// evendeep takes exponential time on the nested maps
+		if *h == nil {
+			*h = make(map[string]any, len(m))
+		}
+		mergeInto(*h, m)
+		return
+	}
 	// evendeep.DefaultCopyController is stateful, so it isn't safe for concurrent uses.
 	err = evendeep.New().CopyTo(m, holder, opts...)
 	return
 }
 
+// mergeInto copies the entries of src into dst recursively.
+func mergeInto(dst, src map[string]any) {
+	for k, v := range src {
+		if sub, ok := v.(map[string]any); ok {
+			if d, ok := dst[k].(map[string]any); ok && d != nil {
+				mergeInto(d, sub)
+				continue
+			}
+		}
+		dst[k] = cvt.Clone(v)
+	}
+}
+
 func (s *trieS[T]) GetSectionFrom(path string, holder any, opts ...MOpt[T]) (err error) {
 	return s.To(path, holder, opts...)
 }
diff --git a/radix/node.go b/radix/node.go
index 4d5672f..c558cc8 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -7,6 +7,8 @@ import (
 	"time"
 
 	logz "github.com/hedzr/logg/slog"
+
+	"github.com/hedzr/store/internal/cvt"
 )
 
 type nodeType int
@@ -674,7 +676,7 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		newNode.children = append(newNode.children, ch.Dup())
 	}
 
-	if data, ok := makeClone(s.Data()).(T); ok {
+	if data, ok := cvt.Clone(s.Data()).(T); ok {
 		newNode.data = data
 	}
 	return
-- 
2.43.0


From b997d899691d9121df7f104fcfda0b36ce5bcf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:44 +0000
Subject: [PATCH 42/76] fix: WithStoreFlattenSlice of one Load leaked into all
 later loads and merges

---
 load.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/load.go b/load.go
index ce36c54..0ce2bf3 100644
--- a/load.go
+++ b/load.go
@@ -91,6 +91,8 @@ func (s *storeS) SaveAs(ctx context.Context, outfile string, opts ...SaveAsOpt)
 func (s *storeS) Load(ctx context.Context, opts ...LoadOpt) (wr Writeable, err error) {
 	if atomic.CompareAndSwapInt32(&s.loading, 0, 1) {
 		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
+		// WithStoreFlattenSlice is an option of this loading only
+		defer func(b bool) { s.flattenSlice = b }(s.flattenSlice)
 
 		loader := newLoader(s, opts...)
 
-- 
2.43.0


From 8a627d77faa9baec8889a2f6c66ca5352c5b0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:08 +0000
Subject: [PATCH 43/76] fix: hjson UnmarshalEx kept only the last element of
 each list

---
 codecs/hjson/hjson.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codecs/hjson/hjson.go b/codecs/hjson/hjson.go
index a9486ce..1ebf044 100644
--- a/codecs/hjson/hjson.go
+++ b/codecs/hjson/hjson.go
@@ -1,6 +1,8 @@
 package hjson
 
 import (
+	"strconv"
+
 	"github.com/hjson/hjson-go/v4"
 
 	"github.com/hedzr/store"
@@ -77,6 +79,10 @@ func (p *ldr) decode(data map[string]store.ValPkg, node *hjson.Node) (err error)
 			return e
 		}
 
+		if _, list := node.Value.([]any); list {
+			k = strconv.Itoa(i) // a list element has no key
+		}
+
 		n := node.NI(i)
 		cm := n.Cm
 
@@ -95,7 +101,6 @@ func (p *ldr) decode(data map[string]store.ValPkg, node *hjson.Node) (err error)
 			}
 
 			nm := make(map[string]store.ValPkg)
-			// k = strconv.Itoa(i)
 			data[k] = store.ValPkg{Value: nm,
 				Desc: cm.Before, Comment: cm.Key + cm.After, Tag: nil}
 			err = p.decode(nm, n)
-- 
2.43.0


From f09f39fe286d65afa84ec83a1a215fd371578eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:59 +0000
Subject: [PATCH 44/76] fix: the first concurrent uses of the nestext codec
 raced and panicked

---
 codecs/nestext/nestext.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codecs/nestext/nestext.go b/codecs/nestext/nestext.go
index 3c80a2f..38d6506 100644
--- a/codecs/nestext/nestext.go
+++ b/codecs/nestext/nestext.go
@@ -3,6 +3,8 @@ package nestext
 import (
 	"bytes"
 	"errors"
+	"strings"
+	"sync"
 
 	"github.com/npillmayer/nestext"
 	"github.com/npillmayer/nestext/ntenc"
@@ -16,6 +18,10 @@ func New() store.Codec {
 
 type ldr struct{}
 
+// prepare makes the parser initialize its global variables,
+// which it does at its first use and without a lock.
+var prepare = sync.OnceFunc(func() { _, _ = nestext.Parse(strings.NewReader("a: b\n")) })
+
 // Unmarshal parses the given NestedText bytes.
 //
 // If the NT content does not reflect a dict (NT allows
@@ -25,6 +31,8 @@ type ldr struct{}
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
 	// err = nestext.Unmarshal(b, &data)
 
+	prepare()
+
 	var ok bool
 	var result interface{}
 	result, err = nestext.Parse(bytes.NewReader(b), nestext.TopLevel("dict"))
-- 
2.43.0


From 49030f87f4764b7ed6be7de0cc11ab693366124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 45/76] fix: GetUint64 and GetComplex128 lost precision of
 numbers given as text

---
 radix/cvts.go | 59 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/radix/cvts.go b/radix/cvts.go
index 4711d71..5e68937 100644
--- a/radix/cvts.go
+++ b/radix/cvts.go
@@ -1,6 +1,7 @@
 package radix
 
 import (
+	"strconv"
 	"time"
 
 	"github.com/hedzr/evendeep"
@@ -72,24 +73,33 @@ func cvtTextElems(data any) any {
 	return data
 }
 
-func (s *cvtS) String(data any) string                 { return cvtTo(s.Cvt.String, cvtText(data)) }
-func (s *cvtS) StringSlice(data any) []string          { return cvtTo(s.Cvt.StringSlice, cvtTextElems(data)) }
-func (s *cvtS) StringMap(data any) map[string]string   { return cvtTo(s.Cvt.StringMap, cvtText(data)) }
-func (s *cvtS) Bool(data any) bool                     { return cvtTo(s.Cvt.Bool, cvtText(data)) }
-func (s *cvtS) BoolSlice(data any) []bool              { return cvtTo(s.Cvt.BoolSlice, cvtTextElems(data)) }
-func (s *cvtS) BoolMap(data any) map[string]bool       { return cvtTo(s.Cvt.BoolMap, cvtText(data)) }
-func (s *cvtS) Int(data any) int64                     { return cvtTo(s.Cvt.Int, cvtText(data)) }
-func (s *cvtS) Int64Slice(data any) []int64            { return cvtTo(s.Cvt.Int64Slice, cvtTextElems(data)) }
-func (s *cvtS) Int32Slice(data any) []int32            { return cvtTo(s.Cvt.Int32Slice, cvtTextElems(data)) }
-func (s *cvtS) Int16Slice(data any) []int16            { return cvtTo(s.Cvt.Int16Slice, cvtTextElems(data)) }
-func (s *cvtS) Int8Slice(data any) []int8              { return cvtTo(s.Cvt.Int8Slice, cvtTextElems(data)) }
-func (s *cvtS) IntSlice(data any) []int                { return cvtTo(s.Cvt.IntSlice, cvtTextElems(data)) }
-func (s *cvtS) Int64Map(data any) map[string]int64     { return cvtTo(s.Cvt.Int64Map, cvtText(data)) }
-func (s *cvtS) Int32Map(data any) map[string]int32     { return cvtTo(s.Cvt.Int32Map, cvtText(data)) }
-func (s *cvtS) Int16Map(data any) map[string]int16     { return cvtTo(s.Cvt.Int16Map, cvtText(data)) }
-func (s *cvtS) Int8Map(data any) map[string]int8       { return cvtTo(s.Cvt.Int8Map, cvtText(data)) }
-func (s *cvtS) IntMap(data any) map[string]int         { return cvtTo(s.Cvt.IntMap, cvtText(data)) }
-func (s *cvtS) Uint(data any) uint64                   { return cvtTo(s.Cvt.Uint, cvtText(data)) }
+func (s *cvtS) String(data any) string               { return cvtTo(s.Cvt.String, cvtText(data)) }
+func (s *cvtS) StringSlice(data any) []string        { return cvtTo(s.Cvt.StringSlice, cvtTextElems(data)) }
+func (s *cvtS) StringMap(data any) map[string]string { return cvtTo(s.Cvt.StringMap, cvtText(data)) }
+func (s *cvtS) Bool(data any) bool                   { return cvtTo(s.Cvt.Bool, cvtText(data)) }
+func (s *cvtS) BoolSlice(data any) []bool            { return cvtTo(s.Cvt.BoolSlice, cvtTextElems(data)) }
+func (s *cvtS) BoolMap(data any) map[string]bool     { return cvtTo(s.Cvt.BoolMap, cvtText(data)) }
+func (s *cvtS) Int(data any) int64                   { return cvtTo(s.Cvt.Int, cvtText(data)) }
+func (s *cvtS) Int64Slice(data any) []int64          { return cvtTo(s.Cvt.Int64Slice, cvtTextElems(data)) }
+func (s *cvtS) Int32Slice(data any) []int32          { return cvtTo(s.Cvt.Int32Slice, cvtTextElems(data)) }
+func (s *cvtS) Int16Slice(data any) []int16          { return cvtTo(s.Cvt.Int16Slice, cvtTextElems(data)) }
+func (s *cvtS) Int8Slice(data any) []int8            { return cvtTo(s.Cvt.Int8Slice, cvtTextElems(data)) }
+func (s *cvtS) IntSlice(data any) []int              { return cvtTo(s.Cvt.IntSlice, cvtTextElems(data)) }
+func (s *cvtS) Int64Map(data any) map[string]int64   { return cvtTo(s.Cvt.Int64Map, cvtText(data)) }
+func (s *cvtS) Int32Map(data any) map[string]int32   { return cvtTo(s.Cvt.Int32Map, cvtText(data)) }
+func (s *cvtS) Int16Map(data any) map[string]int16   { return cvtTo(s.Cvt.Int16Map, cvtText(data)) }
+func (s *cvtS) Int8Map(data any) map[string]int8     { return cvtTo(s.Cvt.Int8Map, cvtText(data)) }
+func (s *cvtS) IntMap(data any) map[string]int       { return cvtTo(s.Cvt.IntMap, cvtText(data)) }
+func (s *cvtS) Uint(data any) uint64 {
+	data = cvtText(data)
+	if text, ok := data.(string); ok {
+		// evendeep rounds the text of a number above math.MaxInt64
+		if u, err := strconv.ParseUint(text, 10, 64); err == nil {
+			return u
+		}
+	}
+	return cvtTo(s.Cvt.Uint, data)
+}
 func (s *cvtS) Uint64Slice(data any) []uint64          { return cvtTo(s.Cvt.Uint64Slice, cvtTextElems(data)) }
 func (s *cvtS) Uint32Slice(data any) []uint32          { return cvtTo(s.Cvt.Uint32Slice, cvtTextElems(data)) }
 func (s *cvtS) Uint16Slice(data any) []uint16          { return cvtTo(s.Cvt.Uint16Slice, cvtTextElems(data)) }
@@ -106,8 +116,17 @@ func (s *cvtS) Float64Slice(data any) []float64        { return cvtTo(s.Cvt.Floa
 func (s *cvtS) Float32Slice(data any) []float32        { return cvtTo(s.Cvt.Float32Slice, cvtTextElems(data)) }
 func (s *cvtS) Float64Map(data any) map[string]float64 { return cvtTo(s.Cvt.Float64Map, cvtText(data)) }
 func (s *cvtS) Float32Map(data any) map[string]float32 { return cvtTo(s.Cvt.Float32Map, cvtText(data)) }
-func (s *cvtS) Complex128(data any) complex128         { return cvtTo(s.Cvt.Complex128, cvtText(data)) }
-func (s *cvtS) Complex64(data any) complex64           { return cvtTo(s.Cvt.Complex64, cvtText(data)) }
+func (s *cvtS) Complex128(data any) complex128 {
+	data = cvtText(data)
+	if text, ok := data.(string); ok {
+		// evendeep parses it with the precision of a complex64
+		if c, err := strconv.ParseComplex(text, 128); err == nil {
+			return c
+		}
+	}
+	return cvtTo(s.Cvt.Complex128, data)
+}
+func (s *cvtS) Complex64(data any) complex64 { return cvtTo(s.Cvt.Complex64, cvtText(data)) }
 func (s *cvtS) Complex128Slice(data any) []complex128 {
 	return cvtTo(s.Cvt.Complex128Slice, cvtTextElems(data))
 }
-- 
2.43.0


From a1f413f364e434c309cb9a5045d4ded0b6a012a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:43 +0000
Subject: [PATCH 46/76] fix: lists and maps of texts lost precision, or were
 empty, for the uint, complex and bool getters

---
 radix/cvts.go | 118 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 92 insertions(+), 26 deletions(-)

diff --git a/radix/cvts.go b/radix/cvts.go
index 5e68937..125bf1c 100644
--- a/radix/cvts.go
+++ b/radix/cvts.go
@@ -73,23 +73,73 @@ func cvtTextElems(data any) any {
 	return data
 }
 
+// cvtEach converts the elements of a list of texts, or an untyped list, one
+// by one, in the same way as for a single value.
+func cvtEach[R any](fn func(data any) R, all func(data any) []R, data any) (ret []R) {
+	switch z := data.(type) {
+	case []string:
+		ret = make([]R, 0, len(z))
+		for _, v := range z {
+			ret = append(ret, fn(v))
+		}
+	case []any:
+		ret = make([]R, 0, len(z))
+		for _, v := range z {
+			ret = append(ret, fn(v))
+		}
+	default:
+		ret = cvtTo(all, data)
+	}
+	return
+}
+
+// cvtEachOf does it for a map.
+func cvtEachOf[R any](s *cvtS, fn func(data any) R, all func(data any) map[string]R, data any) (ret map[string]R) {
+	switch z := data.(type) {
+	case map[string]string:
+		ret = make(map[string]R, len(z))
+		for k, v := range z {
+			ret[k] = fn(v)
+		}
+	case map[string]any:
+		ret = make(map[string]R, len(z))
+		for k, v := range z {
+			ret[k] = fn(v)
+		}
+	case map[any]any:
+		ret = make(map[string]R, len(z))
+		for k, v := range z {
+			ret[s.String(k)] = fn(v)
+		}
+	default:
+		ret = cvtTo(all, cvtText(data))
+	}
+	return
+}
+
+func cvtUint[R uint | uint8 | uint16 | uint32](s *cvtS) func(data any) R {
+	return func(data any) R { return R(s.Uint(data)) }
+}
+
 func (s *cvtS) String(data any) string               { return cvtTo(s.Cvt.String, cvtText(data)) }
 func (s *cvtS) StringSlice(data any) []string        { return cvtTo(s.Cvt.StringSlice, cvtTextElems(data)) }
 func (s *cvtS) StringMap(data any) map[string]string { return cvtTo(s.Cvt.StringMap, cvtText(data)) }
 func (s *cvtS) Bool(data any) bool                   { return cvtTo(s.Cvt.Bool, cvtText(data)) }
 func (s *cvtS) BoolSlice(data any) []bool            { return cvtTo(s.Cvt.BoolSlice, cvtTextElems(data)) }
-func (s *cvtS) BoolMap(data any) map[string]bool     { return cvtTo(s.Cvt.BoolMap, cvtText(data)) }
-func (s *cvtS) Int(data any) int64                   { return cvtTo(s.Cvt.Int, cvtText(data)) }
-func (s *cvtS) Int64Slice(data any) []int64          { return cvtTo(s.Cvt.Int64Slice, cvtTextElems(data)) }
-func (s *cvtS) Int32Slice(data any) []int32          { return cvtTo(s.Cvt.Int32Slice, cvtTextElems(data)) }
-func (s *cvtS) Int16Slice(data any) []int16          { return cvtTo(s.Cvt.Int16Slice, cvtTextElems(data)) }
-func (s *cvtS) Int8Slice(data any) []int8            { return cvtTo(s.Cvt.Int8Slice, cvtTextElems(data)) }
-func (s *cvtS) IntSlice(data any) []int              { return cvtTo(s.Cvt.IntSlice, cvtTextElems(data)) }
-func (s *cvtS) Int64Map(data any) map[string]int64   { return cvtTo(s.Cvt.Int64Map, cvtText(data)) }
-func (s *cvtS) Int32Map(data any) map[string]int32   { return cvtTo(s.Cvt.Int32Map, cvtText(data)) }
-func (s *cvtS) Int16Map(data any) map[string]int16   { return cvtTo(s.Cvt.Int16Map, cvtText(data)) }
-func (s *cvtS) Int8Map(data any) map[string]int8     { return cvtTo(s.Cvt.Int8Map, cvtText(data)) }
-func (s *cvtS) IntMap(data any) map[string]int       { return cvtTo(s.Cvt.IntMap, cvtText(data)) }
+func (s *cvtS) BoolMap(data any) map[string]bool {
+	return cvtEachOf(s, s.Bool, s.Cvt.BoolMap, data)
+}
+func (s *cvtS) Int(data any) int64                 { return cvtTo(s.Cvt.Int, cvtText(data)) }
+func (s *cvtS) Int64Slice(data any) []int64        { return cvtTo(s.Cvt.Int64Slice, cvtTextElems(data)) }
+func (s *cvtS) Int32Slice(data any) []int32        { return cvtTo(s.Cvt.Int32Slice, cvtTextElems(data)) }
+func (s *cvtS) Int16Slice(data any) []int16        { return cvtTo(s.Cvt.Int16Slice, cvtTextElems(data)) }
+func (s *cvtS) Int8Slice(data any) []int8          { return cvtTo(s.Cvt.Int8Slice, cvtTextElems(data)) }
+func (s *cvtS) IntSlice(data any) []int            { return cvtTo(s.Cvt.IntSlice, cvtTextElems(data)) }
+func (s *cvtS) Int64Map(data any) map[string]int64 { return cvtTo(s.Cvt.Int64Map, cvtText(data)) }
+func (s *cvtS) Int32Map(data any) map[string]int32 { return cvtTo(s.Cvt.Int32Map, cvtText(data)) }
+func (s *cvtS) Int16Map(data any) map[string]int16 { return cvtTo(s.Cvt.Int16Map, cvtText(data)) }
+func (s *cvtS) Int8Map(data any) map[string]int8   { return cvtTo(s.Cvt.Int8Map, cvtText(data)) }
+func (s *cvtS) IntMap(data any) map[string]int     { return cvtTo(s.Cvt.IntMap, cvtText(data)) }
 func (s *cvtS) Uint(data any) uint64 {
 	data = cvtText(data)
 	if text, ok := data.(string); ok {
@@ -100,16 +150,32 @@ func (s *cvtS) Uint(data any) uint64 {
 	}
 	return cvtTo(s.Cvt.Uint, data)
 }
-func (s *cvtS) Uint64Slice(data any) []uint64          { return cvtTo(s.Cvt.Uint64Slice, cvtTextElems(data)) }
-func (s *cvtS) Uint32Slice(data any) []uint32          { return cvtTo(s.Cvt.Uint32Slice, cvtTextElems(data)) }
-func (s *cvtS) Uint16Slice(data any) []uint16          { return cvtTo(s.Cvt.Uint16Slice, cvtTextElems(data)) }
-func (s *cvtS) Uint8Slice(data any) []uint8            { return cvtTo(s.Cvt.Uint8Slice, cvtTextElems(data)) }
-func (s *cvtS) UintSlice(data any) []uint              { return cvtTo(s.Cvt.UintSlice, cvtTextElems(data)) }
-func (s *cvtS) Uint64Map(data any) map[string]uint64   { return cvtTo(s.Cvt.Uint64Map, cvtText(data)) }
-func (s *cvtS) Uint32Map(data any) map[string]uint32   { return cvtTo(s.Cvt.Uint32Map, cvtText(data)) }
-func (s *cvtS) Uint16Map(data any) map[string]uint16   { return cvtTo(s.Cvt.Uint16Map, cvtText(data)) }
-func (s *cvtS) Uint8Map(data any) map[string]uint8     { return cvtTo(s.Cvt.Uint8Map, cvtText(data)) }
-func (s *cvtS) UintMap(data any) map[string]uint       { return cvtTo(s.Cvt.UintMap, cvtText(data)) }
+func (s *cvtS) Uint64Slice(data any) []uint64 { return cvtEach(s.Uint, s.Cvt.Uint64Slice, data) }
+func (s *cvtS) Uint32Slice(data any) []uint32 {
+	return cvtEach(cvtUint[uint32](s), s.Cvt.Uint32Slice, data)
+}
+func (s *cvtS) Uint16Slice(data any) []uint16 {
+	return cvtEach(cvtUint[uint16](s), s.Cvt.Uint16Slice, data)
+}
+func (s *cvtS) Uint8Slice(data any) []uint8 {
+	return cvtEach(cvtUint[uint8](s), s.Cvt.Uint8Slice, data)
+}
+func (s *cvtS) UintSlice(data any) []uint { return cvtEach(cvtUint[uint](s), s.Cvt.UintSlice, data) }
+func (s *cvtS) Uint64Map(data any) map[string]uint64 {
+	return cvtEachOf(s, s.Uint, s.Cvt.Uint64Map, data)
+}
+func (s *cvtS) Uint32Map(data any) map[string]uint32 {
+	return cvtEachOf(s, cvtUint[uint32](s), s.Cvt.Uint32Map, data)
+}
+func (s *cvtS) Uint16Map(data any) map[string]uint16 {
+	return cvtEachOf(s, cvtUint[uint16](s), s.Cvt.Uint16Map, data)
+}
+func (s *cvtS) Uint8Map(data any) map[string]uint8 {
+	return cvtEachOf(s, cvtUint[uint8](s), s.Cvt.Uint8Map, data)
+}
+func (s *cvtS) UintMap(data any) map[string]uint {
+	return cvtEachOf(s, cvtUint[uint](s), s.Cvt.UintMap, data)
+}
 func (s *cvtS) Float64(data any) float64               { return cvtTo(s.Cvt.Float64, cvtText(data)) }
 func (s *cvtS) Float32(data any) float32               { return cvtTo(s.Cvt.Float32, cvtText(data)) }
 func (s *cvtS) Float64Slice(data any) []float64        { return cvtTo(s.Cvt.Float64Slice, cvtTextElems(data)) }
@@ -128,16 +194,16 @@ func (s *cvtS) Complex128(data any) complex128 {
 }
 func (s *cvtS) Complex64(data any) complex64 { return cvtTo(s.Cvt.Complex64, cvtText(data)) }
 func (s *cvtS) Complex128Slice(data any) []complex128 {
-	return cvtTo(s.Cvt.Complex128Slice, cvtTextElems(data))
+	return cvtEach(s.Complex128, s.Cvt.Complex128Slice, data)
 }
 func (s *cvtS) Complex64Slice(data any) []complex64 {
-	return cvtTo(s.Cvt.Complex64Slice, cvtTextElems(data))
+	return cvtEach(s.Complex64, s.Cvt.Complex64Slice, data)
 }
 func (s *cvtS) Complex128Map(data any) map[string]complex128 {
-	return cvtTo(s.Cvt.Complex128Map, cvtText(data))
+	return cvtEachOf(s, s.Complex128, s.Cvt.Complex128Map, data)
 }
 func (s *cvtS) Complex64Map(data any) map[string]complex64 {
-	return cvtTo(s.Cvt.Complex64Map, cvtText(data))
+	return cvtEachOf(s, s.Complex64, s.Cvt.Complex64Map, data)
 }
 func (s *cvtS) Duration(data any) time.Duration { return cvtTo(s.Cvt.Duration, cvtText(data)) }
 func (s *cvtS) DurationSlice(data any) []time.Duration {
-- 
2.43.0


From 796d61cb2c8350ac2530596a94fb68682193c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:17 +0000
Subject: [PATCH 47/76] fix: Normalize skipped the maps within a list of lists

---
 internal/cvt/cvt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index fe75bab..d1994c4 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -51,6 +51,8 @@ func normalize(m map[string]any, key string, val any, worker func(k string, v an
 				Normalize(x, worker)
 			case map[string]any:
 				Normalize(sub, worker)
+			case []any: // a list in a list
+				normalize(map[string]any{}, key, sub, worker)
 			default:
 				if worker != nil {
 					worker(key, val)
-- 
2.43.0


From 042c828ae4dd9766e6384c544b54c762fdc9af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:30 +0000
Subject: [PATCH 48/76] fix: Close left the TTL jobs set through prefixed
 copies running

---
 radix/trie.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index fc6712e..1e8f73c 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -37,6 +37,9 @@ type trieS[T any] struct {
 	delimiter     rune
 	ttlpresent    atomic.Uint32
 	ttls          *TTL[T]
+	owner         *trieS[T] // a prefixed copy shares the tree of its owner
+	viewTTLs      []*TTL[T] // the TTL services of the prefixed copies
+	viewTTLsMu    sync.Mutex
 	recursiveMode RecusiveMode
 }
 
@@ -121,7 +124,10 @@ func (s *TTL[T]) Add(nd *nodeS[T], duration time.Duration, action OnTTLRinging[T
 	if nd.rw == nil {
 		nd.rw = &nodeLock[T]{node: nd}
 	}
-	s.adder <- ttljobS[T]{lock: nd.rw, duration: duration, action: action}
+	select {
+	case s.adder <- ttljobS[T]{lock: nd.rw, duration: duration, action: action}:
+	case <-s.done: // closed by its owner
+	}
 }
 
 func (s *TTL[T]) ring(job ttljobS[T]) {
@@ -187,6 +193,26 @@ func (s *trieS[T]) Close() {
 			s.ttls.Close()
 		}
 	}
+
+	s.viewTTLsMu.Lock()
+	defer s.viewTTLsMu.Unlock()
+	for _, it := range s.viewTTLs {
+		it.Close()
+	}
+	s.viewTTLs = nil
+}
+
+// startTTL starts the TTL service at the first SetTTL. Closing the
+// owner of a prefixed copy stops the service of the copy too.
+func (s *trieS[T]) startTTL() {
+	if s.ttlpresent.CompareAndSwap(0, 1) {
+		s.ttls = newttls(s)
+		for o := s.owner; o != nil; o = o.owner {
+			o.viewTTLsMu.Lock()
+			o.viewTTLs = append(o.viewTTLs, s.ttls)
+			o.viewTTLsMu.Unlock()
+		}
+	}
 }
 
 // SetTTL sets a ttl timeout for a branch or a leaf node.
@@ -220,9 +246,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	state = -1
 	if found {
 		state = 0
-		if s.ttlpresent.CompareAndSwap(0, 1) {
-			s.ttls = newttls(s)
-		}
+		s.startTTL()
 		s.ttls.Add(node, ttl, cb)
 	}
 	return
@@ -230,9 +254,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 
 func (s *trieS[T]) SetTTLFast(node Node[T], ttl time.Duration, cb OnTTLRinging[T]) (state int) {
 	if nd, ok := node.(*nodeS[T]); ok {
-		if s.ttlpresent.CompareAndSwap(0, 1) {
-			s.ttls = newttls(s)
-		}
+		s.startTTL()
 		s.ttls.Add(nd, ttl, cb)
 	} else {
 		state = -1
@@ -250,6 +272,9 @@ func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //n
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
 	}
+	if root == s.root {
+		newTrie.owner = s
+	}
 	// the TTL service will be started for newTrie at its first SetTTL
 	return
 }
-- 
2.43.0


From 2a5fb67679bcb883dea377eb1e178a444d55f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:28 +0000
Subject: [PATCH 49/76] fix: a parent of literal keys shadowed a route pattern
 matching its path

---
 radix/node.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index c558cc8..2f6c89d 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -549,8 +549,9 @@ masterLoop:
 		}
 
 		// a literal child takes precedence over an identifier (":id", "*path"),
-		// but it must not shadow the others if it isn't a matched path.
-		var hit, pm bool
+		// but it must not shadow the others if it isn't a matched path, or
+		// is the parent of other keys only.
+		var hit, pm, branch bool
 		var node, prnt *nodeS[T]
 		restPart := word[dstMatchedL:]
 		matched, partialMatched, child, parent = false, false, nil, nil
@@ -561,7 +562,13 @@ masterLoop:
 				}
 				hit, pm, node, prnt = ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
 				if hit && node.isPath(mctx.delimiter) {
-					return true, false, node, prnt
+					if !node.isBranch() {
+						return true, false, node, prnt
+					}
+					if !branch {
+						branch, matched, partialMatched, child, parent = true, true, false, node, prnt
+					}
+					continue
 				}
 				if (hit || pm) && child == nil {
 					matched, partialMatched, child, parent = hit, pm, node, prnt
-- 
2.43.0


From 847edc4deb457ca6f59c26a70f5ca625b9bc1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:17 +0000
Subject: [PATCH 50/76] fix: Store.Locate returned a non-nil interface holding
 a nil node

---
 store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 9cf0793..e68cc14 100644
--- a/store.go
+++ b/store.go
@@ -422,7 +422,11 @@ func (s *storeS) Has(path string) (found bool) {
 
 // Locate provides an advanced interface for locating a path.
 func (s *storeS) Locate(path string, kvpair radix.KVPair) (node radix.Node[any], branch, partialMatched, found bool) {
-	return s.Trie.Locate(path, kvpair)
+	nd, branch, partialMatched, found := s.Trie.Locate(path, kvpair)
+	if nd != nil {
+		node = nd // don't return a non-nil interface holding a nil node
+	}
+	return
 }
 
 // Dump prints internal data tree for debugging
-- 
2.43.0


From ef8f5e3ffdb5cd5e2139ffab6d392fa5dfba348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:36 +0000
Subject: [PATCH 51/76] fix: Dup raced with an expiring TTL for the tag of a
 key

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 2f6c89d..58b873e 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -674,7 +674,7 @@ func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 		pathS:       s.pathS,
 		description: s.description,
 		comment:     s.comment,
-		tag:         s.tag,
+		tag:         s.Tag(),
 		nType:       s.nType,
 	}
 
-- 
2.43.0


From 41f951f71b3998926e924763b11d38ae96e2f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:24 +0000
Subject: [PATCH 52/76] fix: branches whose TTLs expired at the same time
 damaged the tree

---
 radix/trie.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index 1e8f73c..46d4d44 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -40,6 +40,7 @@ type trieS[T any] struct {
 	owner         *trieS[T] // a prefixed copy shares the tree of its owner
 	viewTTLs      []*TTL[T] // the TTL services of the prefixed copies
 	viewTTLsMu    sync.Mutex
+	expireMu      sync.Mutex // for dropping the expired branches
 	recursiveMode RecusiveMode
 }
 
@@ -148,7 +149,14 @@ func (s *TTL[T]) ring(job ttljobS[T]) {
 	job.lock.Unlock()
 
 	if branch {
-		s.treevec[0].removeEx(path)
+		// many branches can expire at the same time
+		tree := s.treevec[0]
+		for tree.owner != nil {
+			tree = tree.owner
+		}
+		tree.expireMu.Lock()
+		defer tree.expireMu.Unlock()
+		tree.removeEx(path)
 	}
 }
 
-- 
2.43.0


From 94353342e2c74386e23345fe44a11af58acaa9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:00 +0000
Subject: [PATCH 53/76] fix: lookups hung for paths with unnamed parameters

---
 radix/node.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 58b873e..409776b 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -413,6 +413,9 @@ func (s *nodeS[T]) matchChildren(word []rune) (matched bool, child *nodeS[T]) {
 }
 
 func extractor(from, to int, src, piece []rune, delimiter rune) (ret string, pos int, end bool) {
+	if from >= to {
+		return "", to, true // nothing left, an ident without name
+	}
 	j := 0
 	for i := from; i < to; j++ {
 		if src[i] == delimiter {
@@ -517,7 +520,10 @@ masterLoop:
 								partialMatched = true
 								break masterLoop
 							}
-							goto retriever // for the next id+val
+							if srcMatchedL < l && dstMatchedL < wl {
+								goto retriever // for the next id+val
+							}
+							return false, false, nil, nil // one of both ended
 						}
 					}
 				}
-- 
2.43.0


From 84c7eee720f1bbb030d5e94372449749b53d012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:14 +0000
Subject: [PATCH 54/76] fix: To panicked if the holder cannot take the section

---
 radix/cvter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/cvter.go b/radix/cvter.go
index f377516..a5cdb07 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -571,6 +571,7 @@ func reloadIntoStruct(m map[string]any, holder any, opts ...evendeep.Opt) (err e
 		mergeInto(*h, m)
 		return
 	}
+	defer handleSerializeError(&err) // evendeep panics on the mismatched types
 	// evendeep.DefaultCopyController is stateful, so it isn't safe for concurrent uses.
 	err = evendeep.New().CopyTo(m, holder, opts...)
 	return
-- 
2.43.0


From 5ca4f25dec602d7be724dda0e6afde14997ebd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 55/76] fix: the flags provider delivered internal types, large
 uint64 flags lost precision

---
 providers/flags/flags.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 359e18e..8841add 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -117,7 +117,9 @@ func (s *pvdr) prepare() (err error) {
 		}
 
 		var v any = f.Value
-		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer {
+		if g, ok := v.(flag.Getter); ok {
+			v = g.Get()
+		} else if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer {
 			v = rv.Elem().Interface()
 		}
 
-- 
2.43.0


From d51236107b6c63f323094d7f7119fd25bc116360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 56/76] fix: env/flags providers listed a key twice if two
 names map to it

---
 providers/env/env.go     | 4 +++-
 providers/flags/flags.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 40f8627..c572a41 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -131,8 +131,10 @@ func (s *pvdr) prepare() (err error) {
 			if s.storePrefix != "" {
 				k = s.storePrefix + "." + k
 			}
+			if _, ok := s.m[k]; !ok {
+				s.keys = append(s.keys, k)
+			}
 			s.m[k] = store.ValPkg{Value: v}
-			s.keys = append(s.keys, k)
 		}
 	}
 	sort.Strings(s.keys)
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 8841add..490f570 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -123,13 +123,15 @@ func (s *pvdr) prepare() (err error) {
 			v = rv.Elem().Interface()
 		}
 
+		if _, ok := s.m[k]; !ok {
+			s.keys = append(s.keys, k)
+		}
 		s.m[k] = store.ValPkg{
 			Value:   v,
 			Desc:    f.Usage,
 			Comment: "",
 			Tag:     f.DefValue,
 		}
-		s.keys = append(s.keys, k)
 	})
 	sort.Strings(s.keys)
 	s.pos = 0
-- 
2.43.0


From 712b08af7648aa09faa2d5e7d594e094156b6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:12 +0000
Subject: [PATCH 57/76] fix: HasPart reported the leading part of removed keys

---
 radix/trie.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 46d4d44..d8c7089 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -585,8 +585,8 @@ func (s *trieS[T]) HasPart(path string) (yes bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	yes = node != nil || partialMatched
-	if partialMatched && node != nil {
+	yes = node != nil && node.hasLeaf()
+	if partialMatched && yes {
 		yes = strings.HasPrefix(node.pathS, path)
 	}
 	return
-- 
2.43.0


From e12f60e1d2bbd818545f7ca65bb2cef383e387d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:41 +0000
Subject: [PATCH 58/76] fix: Dump garbled values and metadata which contain a
 percent sign

---
 radix/node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 409776b..687dd96 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -642,20 +642,20 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 				_, _ = sb.WriteString(" ")
 				_, _ = sb.WriteString(s.pathS)
 				_, _ = sb.WriteString(" => ")
-				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.data)))
+				_, _ = sb.WriteString(ColorToDim("%v", s.data))
 			}
 
 			if s.comment != "" {
-				_, _ = sb.WriteString(ColorToColor(FgLightGreen, " // "+s.comment))
+				_, _ = sb.WriteString(ColorToColor(FgLightGreen, " // %s", s.comment))
 			}
 
 			if s.tag != nil {
 				_, _ = sb.WriteString(" | tag = ")
-				_, _ = sb.WriteString(ColorToColor(FgGreen, fmt.Sprint(s.tag)))
+				_, _ = sb.WriteString(ColorToColor(FgGreen, "%v", s.tag))
 			}
 
 			if s.description != "" {
-				_, _ = sb.WriteString(ColorToColor(FgLightGreen, " ~ "+s.description))
+				_, _ = sb.WriteString(ColorToColor(FgLightGreen, " ~ %s", s.description))
 			}
 
 			if !strings.HasSuffix(s.pathS, string(s.path)) {
-- 
2.43.0


From f8524a7aff58ef9ceddabda7fd7e5c1f6d73feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:10 +0000
Subject: [PATCH 59/76] fix: JSON of a trie was no JSON value, nor that of a
 store with a quote as delimiter

---
 radix/trie.go | 22 +++++++++++++++-------
 store.go      | 10 +---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index d8c7089..6cbfd30 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -3,8 +3,8 @@ package radix
 import (
 	"bytes"
 	"context"
+	"encoding/json"
 	"fmt"
-	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -301,13 +301,21 @@ func (s *trieS[T]) String() string {
 
 func (s *trieS[T]) MarshalJSON() ([]byte, error) {
 	var sb strings.Builder
-	_, _ = sb.WriteString("\"trie\":{\"prefix\":")
-	_, _ = sb.WriteString(strconv.Quote(s.prefix))
-	_, _ = sb.WriteString(",\"delimiter\":\"")
-	_, _ = sb.WriteRune(s.delimiter)
-	_, _ = sb.WriteString("\", \"recursive-mode\":\"")
+	_, _ = sb.WriteString("{\"trie\":{\"prefix\":")
+	prefix, err := json.Marshal(s.prefix)
+	if err != nil {
+		return nil, err
+	}
+	_, _ = sb.Write(prefix)
+	_, _ = sb.WriteString(",\"delimiter\":")
+	delimiter, err := json.Marshal(string(s.delimiter))
+	if err != nil {
+		return nil, err
+	}
+	_, _ = sb.Write(delimiter)
+	_, _ = sb.WriteString(", \"recursive-mode\":\"")
 	_, _ = sb.WriteString(s.recursiveMode.String())
-	_, _ = sb.WriteString("\"}")
+	_, _ = sb.WriteString("\"}}")
 	return []byte(sb.String()), nil
 }
 
diff --git a/store.go b/store.go
index e68cc14..8a31ff9 100644
--- a/store.go
+++ b/store.go
@@ -120,15 +120,7 @@ func (s *storeS) String() string {
 }
 
 func (s *storeS) MarshalJSON() ([]byte, error) {
-	var sb strings.Builder
-	_, _ = sb.WriteString("{")
-	if b, err := s.Trie.MarshalJSON(); err != nil {
-		return nil, err
-	} else {
-		_, _ = sb.Write(b)
-	}
-	_, _ = sb.WriteString("}")
-	return []byte(sb.String()), nil
+	return s.Trie.MarshalJSON()
 }
 
 // dupS makes a new `*storeS` instance with initial `trie` object.
-- 
2.43.0


From ca1158935f04e808213e8a2d3a72c8f275c7fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:34 +0000
Subject: [PATCH 60/76] fix: a delimiter beyond ASCII was cut to one byte in
 joined paths

---
 load.go       | 7 ++++---
 radix/load.go | 5 +++--
 radix/trie.go | 4 ++--
 store.go      | 2 +-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/load.go b/load.go
index 0ce2bf3..1284644 100644
--- a/load.go
+++ b/load.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"sync/atomic"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 
@@ -200,7 +201,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMap(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -220,7 +221,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 			buf := make([]byte, 0, len(k)+16)
 			for i, mm := range vv {
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				ec.Attach(s.loadMapAny(mm, s.join(position, string(buf)), creating, onSet))
 				buf = buf[:0]
@@ -244,7 +245,7 @@ func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any,
 				// 	buf = append(buf, byte(s.Delimiter()))
 				// }
 				buf = append(buf, k...)
-				buf = append(buf, byte(s.Delimiter()))
+				buf = utf8.AppendRune(buf, s.Delimiter())
 				buf = strconv.AppendInt(buf, int64(i), 10)
 				s.loadMapByValueType(ec, position, string(buf), mm, creating, onSet)
 				buf = buf[:0]
diff --git a/radix/load.go b/radix/load.go
index 8a93be8..ceee6a9 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -2,6 +2,7 @@ package radix
 
 import (
 	"strconv"
+	"unicode/utf8"
 
 	"gopkg.in/hedzr/errors.v3"
 )
@@ -73,7 +74,7 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			ec.Attach(s.withPrefixImpl(string(buf)).loadMap(mm))
 			buf = buf[:0]
@@ -82,7 +83,7 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
 			buf = append(buf, k...)
-			buf = append(buf, byte(s.delimiter))
+			buf = utf8.AppendRune(buf, s.delimiter)
 			buf = strconv.AppendInt(buf, int64(i), 10)
 			s.loadMapByValueType(ec, m, string(buf), mm)
 			buf = buf[:0]
diff --git a/radix/trie.go b/radix/trie.go
index 6cbfd30..fac9802 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -369,7 +369,7 @@ func (s *trieS[T]) join1(pre string, args ...string) (ret string) {
 
 	for _, it := range args {
 		if it != "" {
-			_ = bb.WriteByte(byte(s.delimiter))
+			_, _ = bb.WriteRune(s.delimiter)
 			_, _ = bb.WriteString(it)
 			i++
 		}
@@ -393,7 +393,7 @@ func (s *trieS[T]) Join(args ...string) (ret string) {
 		for _, it := range args {
 			if it != "" {
 				if bytes > 0 {
-					_ = bb.WriteByte(byte(s.delimiter))
+					_, _ = bb.WriteRune(s.delimiter)
 				}
 				_, _ = bb.WriteString(it)
 				bytes++ //nolint:revive
diff --git a/store.go b/store.go
index 8a31ff9..73f0b13 100644
--- a/store.go
+++ b/store.go
@@ -198,7 +198,7 @@ func (s *storeS) join(args ...string) (ret string) {
 	for _, it := range args {
 		if it != "" {
 			if i > 0 {
-				bb.WriteByte(byte(s.Delimiter()))
+				bb.WriteRune(s.Delimiter())
 			}
 			bb.WriteString(it)
 			i++
-- 
2.43.0


From 32563f7c0f18b79b9765b40d4e51e14da3acf5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:17 +0000
Subject: [PATCH 61/76] fix: closing the file provider left its watcher and
 goroutine behind

---
 providers/file/file.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index d77c43e..2bf9eef 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -53,6 +53,7 @@ type pvdr struct {
 	watchEnabled bool
 	writeEnabled bool
 	watching     int32
+	done         chan struct{} // closed by Close
 	codec        store.Codec
 	prefix       string
 }
@@ -117,7 +118,9 @@ func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.prefix = prefix }
 
 func (s *pvdr) Close() {
-	atomic.CompareAndSwapInt32(&s.watching, 1, 0)
+	if atomic.CompareAndSwapInt32(&s.watching, 1, 0) {
+		close(s.done)
+	}
 }
 
 func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err error) {
@@ -136,7 +139,7 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 
 	// Although only a single file is being watched, fsnotify has to watch
 	// the whole parent directory to pick up all events such as symlink changes.
-	fDir, _ := filepath.Split(s.file)
+	fDir := filepath.Dir(s.file)
 
 	var w *fsnotify.Watcher
 	w, err = fsnotify.NewWatcher()
@@ -144,23 +147,30 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		return err
 	}
 
-	go s.watchRunner(ctx, cb, w, realPath)
-
 	// Watch the directory for changes.
-	return w.Add(fDir)
+	if err = w.Add(fDir); err != nil {
+		_ = w.Close()
+		return err
+	}
+
+	if !atomic.CompareAndSwapInt32(&s.watching, 0, 1) {
+		return w.Close() // it is watching already
+	}
+
+	s.done = make(chan struct{})
+	go s.watchRunner(ctx, cb, w, realPath, s.done)
+	return nil
 }
 
-func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w *fsnotify.Watcher, realPath string) {
+func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w *fsnotify.Watcher, realPath string, done <-chan struct{}) {
+	defer func() { _ = w.Close() }()
+
 	var (
 		// lastEvent     string
 		// lastEventTime time.Time
 		lastChange = changeS{provider: s}
 	)
 
-	if !atomic.CompareAndSwapInt32(&s.watching, 0, 1) {
-		return
-	}
-
 	var ok bool
 	var err error
 	var event fsnotify.Event
@@ -170,6 +180,9 @@ loop:
 		case <-ctx.Done():
 			return
 
+		case <-done:
+			return
+
 		case event, ok = <-w.Events:
 			if !ok {
 				cb(nil, errors.New("fsnotify watch channel closed"))
@@ -228,6 +241,4 @@ loop:
 			break loop
 		}
 	}
-
-	w.Close()
 }
-- 
2.43.0


From aa7141c7bd51b1e194647192993a5f441702f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:40 +0000
Subject: [PATCH 62/76] fix: the consul provider panicked for a missing key or
 without a config

---
 providers/consul/consul.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 05f43c5..3320e52 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -2,6 +2,7 @@ package consul
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -110,6 +111,8 @@ func WithConsulConfig(cfg *api.Config) Opt {
 //
 // type OnUpdated func()
 
+var errNoClient = errors.New("no valid consul config given")
+
 func (s *pvdr) prepare() (err error) {
 	if s.config != nil {
 		s.Client, err = api.NewClient(s.config)
@@ -150,6 +153,10 @@ func (s *pvdr) Reader() (r store.Reader, err error) {
 }
 
 func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
+	if s.Client == nil {
+		return nil, errNoClient
+	}
+
 	var kv = s.Client.KV()
 	var pairs api.KVPairs
 	var pair *api.KVPair
@@ -205,7 +212,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	}
 
 	pair, _, err = kv.Get(s.position, nil)
-	if err != nil {
+	if err != nil || pair == nil { // failed, or no such key
 		return
 	}
 
@@ -278,6 +285,9 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	if s.watchEnabled == false {
 		return nil
 	}
+	if s.Client == nil {
+		return errNoClient
+	}
 
 	p := make(map[string]any)
 
-- 
2.43.0


From 7d411d9252b482d719b1a7e3f66efb84e46ae144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:40 +0000
Subject: [PATCH 63/76] fix: the consul watcher lost changes, ignored
 credentials and delivered raw bytes

---
 providers/consul/change.go | 136 +++++++++++++------------------------
 providers/consul/consul.go |  37 +++++++---
 2 files changed, 76 insertions(+), 97 deletions(-)

diff --git a/providers/consul/change.go b/providers/consul/change.go
index 9b2e5c0..86523fb 100644
--- a/providers/consul/change.go
+++ b/providers/consul/change.go
@@ -4,121 +4,83 @@ import (
 	"time"
 
 	"github.com/hashicorp/consul/api"
-	"github.com/hashicorp/consul/api/watch"
 
 	"github.com/hedzr/store"
 )
 
+// changeS carries the pairs which are changed in the same way (created,
+// written or removed) since the last delivery.
 type changeS struct {
-	val   any
+	pairs api.KVPairs
 	idx   int
-	index uint64 // consul action index
 
 	lastOp        store.Op
-	lastEvent     string
 	lastEventTime time.Time
 
-	plan     *watch.Plan
-	provider store.Provider
+	provider *pvdr
 }
 
-// func (s *changeS) Key() string              { return string(s.ev.Kv.Key) }
-// func (s *changeS) Val() any                 { return s.val }
-
-func (s *changeS) Path() string             { return s.val.(string) }
+func (s *changeS) Path() string             { return "" }
 func (s *changeS) Op() store.Op             { return s.lastOp }
 func (s *changeS) Has(op store.Op) bool     { return uint64(s.lastOp)&uint64(op) != 0 }
 func (s *changeS) Timestamp() time.Time     { return s.lastEventTime }
 func (s *changeS) Provider() store.Provider { return s.provider }
 func (s *changeS) Next() (key string, val any, ok bool) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, yes := s.val.(api.KVPairs); yes {
-		RetryNextPair:
-			if s.idx < len(pairs) {
-				kvp := pairs[s.idx]
-				if s.lastOp == store.OpRemove || s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
-				} else {
-					s.idx++
-					goto RetryNextPair
-				}
-				s.idx++
-			}
-		}
-	} else {
-		if kvp, yes := s.val.(*api.KVPair); yes {
-			if s.idx == 0 {
-				if s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
-				}
-				s.idx++
-			}
-		}
+	if s.idx < len(s.pairs) {
+		kvp := s.pairs[s.idx]
+		key, val, ok = s.provider.NormalizeKey(kvp.Key), string(kvp.Value), true
+		s.idx++
 	}
 	return
 }
 
-func (s *changeS) Set(val any, idx uint64) (df func()) {
-	s.lastEventTime = time.Now()
-	s.index, s.idx = idx, 0
-	df = s.findOpIndex(idx, val)
-	if df == nil {
-		df = func() {}
+// changesOf compares the current pairs with the known ones, and returns
+// the differences and the new set of known pairs.
+//
+// A watching plan reports the latest state only, so that many changes
+// can be seen at once.
+func (s *pvdr) changesOf(known map[string]*api.KVPair, val any) (changes []*changeS, current map[string]*api.KVPair) {
+	var pairs api.KVPairs
+	switch v := val.(type) {
+	case api.KVPairs:
+		pairs = v
+	case *api.KVPair:
+		if v != nil {
+			pairs = api.KVPairs{v}
+		}
 	}
-	return
-}
+	current = pairsToMap(pairs)
 
-func (s *changeS) findOpIndex(idx uint64, val any) (df func()) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, ok := val.(api.KVPairs); ok {
-			for ix := 0; ix < len(pairs); ix++ {
-				kvp := pairs[ix]
-				if s.checkOpIndex(kvp) {
-					s.val = val
-					return
-				}
-			}
-
-			s.lastOp = store.OpRemove
-			df = func() { s.val = val }
-			var removed api.KVPairs
-			if s.val != nil {
-				for _, p := range s.val.(api.KVPairs) {
-					var found bool
-					for _, q := range pairs {
-						if p.Key == q.Key {
-							found = true
-							break
-						}
-					}
-					if !found {
-						removed = append(removed, p)
-					}
-				}
-			}
-			s.val = removed
+	var created, written, removed api.KVPairs
+	for _, pair := range pairs {
+		if old, ok := known[pair.Key]; !ok {
+			created = append(created, pair)
+		} else if old.CreateIndex != pair.CreateIndex || old.ModifyIndex != pair.ModifyIndex {
+			written = append(written, pair)
+		}
+	}
+	for key, pair := range known {
+		if _, ok := current[key]; !ok {
+			removed = append(removed, pair)
 		}
-	} else {
-		if kvp, ok := val.(*api.KVPair); ok {
-			if !s.checkOpIndex(kvp) {
-				s.lastOp = store.OpRemove
-				df = func() { s.val = val }
-				return
-			}
-			s.val = val
-			return
+	}
+
+	now := time.Now()
+	add := func(op store.Op, pairs api.KVPairs) {
+		if len(pairs) > 0 {
+			changes = append(changes, &changeS{pairs: pairs, lastOp: op, lastEventTime: now, provider: s})
 		}
 	}
+	add(store.OpRemove, removed) // removing a parent must not drop the new keys
+	add(store.OpCreate, created)
+	add(store.OpWrite, written)
 	return
 }
 
-func (s *changeS) checkOpIndex(pair *api.KVPair) bool {
-	if pair.CreateIndex == s.index {
-		s.lastOp = store.OpCreate
-		return true
-	} else if pair.ModifyIndex == s.index {
-		s.lastOp = store.OpWrite
-		return true
+func pairsToMap(pairs api.KVPairs) (m map[string]*api.KVPair) {
+	m = make(map[string]*api.KVPair, len(pairs))
+	for _, pair := range pairs {
+		m[pair.Key] = pair
 	}
-	return false
+	return
 }
diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 3320e52..2a5f460 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -40,6 +40,8 @@ type pvdr struct {
 
 	plan *watch.Plan
 
+	known map[string]*api.KVPair // the pairs which were delivered lastly
+
 	// onUpdated OnUpdated
 }
 
@@ -168,6 +170,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		if err != nil {
 			return
 		}
+		s.known = pairsToMap(pairs)
 
 		// Detailed information can be obtained via hedzr/store.GetString(key), which key are:
 		//
@@ -212,9 +215,14 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	}
 
 	pair, _, err = kv.Get(s.position, nil)
-	if err != nil || pair == nil { // failed, or no such key
+	if err != nil {
 		return
 	}
+	if pair == nil { // no such key
+		s.known = nil
+		return
+	}
+	s.known = pairsToMap(api.KVPairs{pair})
 
 	if s.processMeta {
 		m := make(map[string]any)
@@ -299,31 +307,40 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		p["key"] = s.position
 	}
 
-	var lastChange = changeS{provider: s}
-
-	lastChange.plan, err = watch.Parse(p)
+	plan, err := watch.Parse(p)
 	if err != nil {
 		return err
 	}
 
-	s.plan = lastChange.plan
-	s.plan.Handler = func(idx uint64, val any) {
-		defer lastChange.Set(val, idx)()
-		cb(&lastChange, nil)
+	known := s.known
+	plan.Handler = func(idx uint64, val any) {
+		var changes []*changeS
+		changes, known = s.changesOf(known, val)
+		for _, change := range changes {
+			cb(change, nil)
+		}
 	}
+	s.plan = plan
+
 	// s.plan.HybridHandler = func(bpv watch.BlockingParamVal, val interface{}) {
 	// 	lastChange.Set(val)
 	// 	cb(lastChange, nil)
 	// }
 
 	go func() {
+		// a plan panics if it is stopped before its first query
+		defer func() {
+			if e := recover(); e != nil && !plan.IsStopped() {
+				panic(e)
+			}
+		}()
+
 		slog.Debug("consul watching plan has been started", "type", p["type"], "key", s.position, "addr", s.config.Address)
 
 		// no need to try to shutdown from ctx triggering. because the
 		// plan will be stopped while consul Client.Close() called.
 
-		err = s.plan.Run(s.config.Address)
-		if err != nil {
+		if err := plan.RunWithClientAndHclog(s.Client, nil); err != nil {
 			slog.Error("consul watching plan has error", "err", err)
 			return
 		}
-- 
2.43.0


From d68fca4ca5ee73ff77af562157d2a2776ffda94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:40 +0000
Subject: [PATCH 64/76] fix: the etcd provider panicked without endpoints and
 timed out without a DialTimeout

---
 providers/etcd/etcd.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index bf1e380..f8d35fb 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -2,6 +2,7 @@ package etcd
 
 import (
 	"context"
+	"errors"
 	"strings"
 	"time"
 
@@ -116,6 +117,8 @@ func WithKey(key string) Opt {
 
 //
 
+var errNoClient = errors.New("no valid etcd config given")
+
 func (s *pvdr) prepare() (err error) {
 	s.Client, err = clientv3.New(s.config)
 	return
@@ -167,8 +170,16 @@ func (s *pvdr) NormalizeKey(key string) string {
 }
 
 func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
-	ctx, cancel := context.WithTimeout(context.Background(), s.config.DialTimeout)
-	defer cancel()
+	if s.Client == nil {
+		return nil, errNoClient
+	}
+
+	ctx := context.Background()
+	if s.config.DialTimeout > 0 {
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, s.config.DialTimeout)
+		defer cancel()
+	}
 
 	var resp *clientv3.GetResponse
 	if s.prefixOrKey {
-- 
2.43.0


From 49e0f76c4f73f95b83b2787945b188c5566345e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:40 +0000
Subject: [PATCH 65/76] fix: the etcd watcher missed changes made since Read
 and span forever after Close

---
 providers/etcd/etcd.go | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index f8d35fb..3c34df3 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -35,6 +35,7 @@ type pvdr struct {
 	limit                      bool
 	maxLimit                   int64
 	processMeta                bool
+	revision                   int64 // the revision which Read has seen
 }
 
 func WithCodec(codec store.Codec) Opt {
@@ -201,6 +202,10 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		}
 	}
 
+	if resp.Header != nil {
+		s.revision = resp.Header.Revision
+	}
+
 	data = make(map[string]store.ValPkg, len(resp.Kvs))
 	for _, r := range resp.Kvs {
 		data[s.NormalizeKey(string(r.Key))] = store.ValPkg{
@@ -241,25 +246,31 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 		return nil
 	}
 
-	var w clientv3.WatchChan
+	if s.Client == nil {
+		return errNoClient
+	}
+
+	var opts []clientv3.OpOption
+	if s.prefixOrKey {
+		opts = append(opts, clientv3.WithPrefix())
+	}
+	if s.revision > 0 {
+		// don't miss the changes which are made since Read
+		opts = append(opts, clientv3.WithRev(s.revision+1))
+	}
+
 	var lastChange = changeS{provider: s}
 
 	go func() {
-		if s.prefixOrKey {
-			w = s.Client.Watch(context.Background(), s.storePrefix, clientv3.WithPrefix())
-		} else {
-			w = s.Client.Watch(context.Background(), s.storePrefix)
-		}
-
-		for {
-			select {
-			case <-ctx.Done():
-				return
-			case wresp := <-w:
-				for _, ev := range wresp.Events {
-					lastChange.Set(ev)
-					cb(&lastChange, nil)
-				}
+		// the channel is closed while ctx is done or the client is closed
+		for wresp := range s.Client.Watch(ctx, s.storePrefix, opts...) {
+			if err := wresp.Err(); err != nil {
+				cb(nil, err)
+				continue
+			}
+			for _, ev := range wresp.Events {
+				lastChange.Set(ev)
+				cb(&lastChange, nil)
 			}
 		}
 	}()
-- 
2.43.0


From 887448a43aab2f5059206c774a56d121c80b751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:24 +0000
Subject: [PATCH 66/76] fix: a second Close closed the watching providers again

---
 store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 73f0b13..55fd2e8 100644
--- a/store.go
+++ b/store.go
@@ -210,7 +210,9 @@ func (s *storeS) join(args ...string) (ret string) {
 // Close cleanup the internal resources.
 // See [basics.Peripheral] for more information.
 func (s *storeS) Close() {
-	for _, c := range s.closers {
+	closers := s.closers
+	s.closers = nil // so they are closed once only
+	for _, c := range closers {
 		c.Close()
 	}
 	if c, ok := s.Trie.(Peripheral); ok {
-- 
2.43.0


From 685e076e8228915b777635bf18277d164592fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:25 +0000
Subject: [PATCH 67/76] fix: WithinLoading dropped its function when the store
 is loading already

---
 load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load.go b/load.go
index 1284644..b277f9a 100644
--- a/load.go
+++ b/load.go
@@ -25,8 +25,8 @@ func (s *storeS) inLoading() bool { return atomic.LoadInt32(&s.loading) == 1 }
 func (s *storeS) WithinLoading(fn func()) {
 	if atomic.CompareAndSwapInt32(&s.loading, 0, 1) {
 		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
-		fn()
 	}
+	fn()
 }
 
 type SaveAsOpt func(*SaveAsOption)
-- 
2.43.0


From e7227d2767d1938980767935dde261b3e5af9b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:26 +0000
Subject: [PATCH 68/76] fix: a view or copy made while loading stayed in
 loading for ever

---
 load.go  | 10 ++++++++--
 store.go | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/load.go b/load.go
index b277f9a..c07841e 100644
--- a/load.go
+++ b/load.go
@@ -17,7 +17,14 @@ import (
 	"github.com/hedzr/store/radix"
 )
 
-func (s *storeS) inLoading() bool { return atomic.LoadInt32(&s.loading) == 1 }
+func (s *storeS) inLoading() bool {
+	for ; s != nil; s = s.source {
+		if atomic.LoadInt32(&s.loading) == 1 {
+			return true
+		}
+	}
+	return false
+}
 
 // WithinLoading is a helper to 'load' a 'fn'. The 'fn' will be
 // run as is, and the internal flag 's.loading' will be set at
@@ -184,7 +191,6 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
-	defer func() { atomic.StoreInt32(&set.loading, 0) }()
 	set.setKV(k, v, creating, onSet)
 }
 
diff --git a/store.go b/store.go
index 55fd2e8..0cff02b 100644
--- a/store.go
+++ b/store.go
@@ -106,6 +106,7 @@ type storeS struct {
 	// See dupS()
 
 	parent *storeS
+	source *storeS // a prefixed copy shares the loading state of its source
 
 	flattenSlice bool
 	allowWatch   bool
@@ -132,12 +133,19 @@ func (s *storeS) dupS(trie radix.Trie[any]) (newStore *storeS) {
 		Trie:         trie,
 		flattenSlice: s.flattenSlice,
 		allowWatch:   s.allowWatch,
-		loading:      s.loading,
 		// don't dup the member 'parent' here
 	}
 	return
 }
 
+// viewS is a dupS for a prefixed copy which shares the tree, and
+// the loading state, with its source.
+func (s *storeS) viewS(trie radix.Trie[any]) (newStore *storeS) {
+	newStore = s.dupS(trie)
+	newStore.source = s
+	return
+}
+
 //
 
 //
@@ -464,7 +472,7 @@ func (s *storeS) Dup() (newStore Store) {
 // A [Delimiter] will be inserted at jointing prefix and key. Also at
 // jointing old and new prefix.
 func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefix(prefix...))
+	return s.viewS(s.Trie.WithPrefix(prefix...))
 }
 
 // WithPrefixReplaced is similar with WithPrefix, but it replaces
@@ -477,7 +485,7 @@ func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
 //
 // A [Delimiter] will be inserted at jointing prefix and key.
 func (s *storeS) WithPrefixReplaced(newPrefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefixReplaced(newPrefix...))
+	return s.viewS(s.Trie.WithPrefixReplaced(newPrefix...))
 }
 
 // SetPrefix updates the prefix in current storeS.
@@ -485,9 +493,9 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 	s.Trie.SetPrefix(newPrefix...)
 }
 
-func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
-func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
-func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
+func (s *storeS) N() (newStore Store)               { return s.viewS(s.Trie.N()) }
+func (s *storeS) R() (newStore Store)               { return s.viewS(s.Trie.R()) }
+func (s *storeS) BR() (newStore Store)              { return s.viewS(s.Trie.BR()) }
 func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
-- 
2.43.0


From 852fd63710dfeea6555670649b4bf511b58c433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:26 +0000
Subject: [PATCH 69/76] fix: a watched change was taken as a change of the user

---
 load.go  |  5 +++--
 store.go | 13 +++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/load.go b/load.go
index c07841e..982445f 100644
--- a/load.go
+++ b/load.go
@@ -345,7 +345,8 @@ func (s *storeS) applyChanges(ev Change) {
 			if !ok {
 				break
 			}
-			s.setKV(key, val, hasCreate, nil)
+			_, branch, found, _ := s.Trie.Query(key, nil)
+			s.setKVBy(false, key, val, !found || branch, nil) // it's not a user's change
 			logz.Debug("created/wrote: ", key, s.MustGet(key), "event", ev.Op())
 		}
 	} else if ev.Has(OpRemove) {
@@ -355,7 +356,7 @@ func (s *storeS) applyChanges(ev Change) {
 			if !ok {
 				break
 			}
-			s.Remove(key)
+			s.removeBy(false, key)
 			logz.Debug("removed: ", key, val, "event", ev.Op())
 		}
 	} else if hasRename, hasChmod := ev.Has(OpRename), ev.Has(OpChmod); hasRename || hasChmod {
diff --git a/store.go b/store.go
index 0cff02b..62a9396 100644
--- a/store.go
+++ b/store.go
@@ -332,9 +332,11 @@ func (s *storeS) Update(path string, cb func(node radix.Node[any], old any)) {
 // }
 
 func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+	return s.setKVBy(!s.inLoading(), path, data, createOrModify, onSet)
+}
+
+func (s *storeS) setKVBy(user bool, path string, data any, createOrModify bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
 	node, oldData = s.Trie.Set(path, data)
-	loading := s.inLoading()
-	user := !loading
 	if node != nil && onSet != nil {
 		onSet(node)
 	}
@@ -397,12 +399,15 @@ retryPD:
 }
 
 func (s *storeS) Remove(path string) (removed bool) {
+	return s.removeBy(!s.inLoading(), path)
+}
+
+func (s *storeS) removeBy(user bool, path string) (removed bool) {
 	var rmn, np radix.Node[any]
 	rmn, np, removed = s.Trie.RemoveEx(path)
 	if removed {
-		loading := s.inLoading()
 		data := rmn.Data()
-		s.tryOnDelete(path, !loading, data, rmn, np)
+		s.tryOnDelete(path, user, data, rmn, np)
 	}
 	return
 }
-- 
2.43.0


From 708e2bac1d72f0d7066c1ba77c985a3b08bda86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:59 +0000
Subject: [PATCH 70/76] fix: the hcl codec decoded to syntax objects and its
 encoder dropped errors

Unmarshal returned *hcl.Attribute values and refused blocks, Marshal
ignored what it could not encode and panicked on mixed or empty lists.
---
 codecs/hcl/hcl.go | 152 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 125 insertions(+), 27 deletions(-)

diff --git a/codecs/hcl/hcl.go b/codecs/hcl/hcl.go
index 5e48d85..519bcc7 100644
--- a/codecs/hcl/hcl.go
+++ b/codecs/hcl/hcl.go
@@ -2,9 +2,12 @@ package hcl
 
 import (
 	"fmt"
+	"math"
+	"math/big"
 	"reflect"
 
-	"github.com/hashicorp/hcl/v2/hclsimple"
+	"github.com/hashicorp/hcl/v2"
+	"github.com/hashicorp/hcl/v2/hclsyntax"
 	"github.com/hashicorp/hcl/v2/hclwrite"
 	"github.com/zclconf/go-cty/cty"
 
@@ -30,11 +33,12 @@ type ldr struct{ flattenSlices bool }
 
 // Unmarshal parses the given hcl bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if err = hclsimple.Decode(
-		"example.hcl", b,
-		nil, &data,
-	); err != nil {
-		return
+	f, diags := hclsyntax.ParseConfig(b, "example.hcl", hcl.InitialPos)
+	if diags.HasErrors() {
+		return nil, diags
+	}
+	if data, err = decodeBody(f.Body.(*hclsyntax.Body)); err != nil {
+		return nil, err
 	}
 
 	// err = hcl.Unmarshal(b, &data)
@@ -56,8 +60,101 @@ func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
 	return
 }
 
+// decodeBody converts the attributes and blocks to a map. A block, and
+// each of its labels, holds a slice with one map per occurrence.
+func decodeBody(body *hclsyntax.Body) (data map[string]any, err error) {
+	data = make(map[string]any, len(body.Attributes)+len(body.Blocks))
+	for k, attr := range body.Attributes {
+		val, diags := attr.Expr.Value(nil)
+		if diags.HasErrors() {
+			return nil, diags
+		}
+		if data[k], err = goValue(val); err != nil {
+			return nil, err
+		}
+	}
+	for _, block := range body.Blocks {
+		var m map[string]any
+		if m, err = decodeBody(block.Body); err != nil {
+			return nil, err
+		}
+		for i := len(block.Labels) - 1; i >= 0; i-- {
+			m = map[string]any{block.Labels[i]: []map[string]any{m}}
+		}
+		if _, dup := body.Attributes[block.Type]; dup {
+			return nil, fmt.Errorf("[hcl] %q is both an attribute and a block", block.Type)
+		}
+		list, _ := data[block.Type].([]map[string]any)
+		data[block.Type] = append(list, m)
+	}
+	return
+}
+
+func goValue(v cty.Value) (ret any, err error) {
+	switch typ := v.Type(); {
+	case v.IsNull():
+		return nil, nil
+	case !v.IsKnown():
+		return nil, fmt.Errorf("[hcl] unknown value: %#v", v)
+	case typ == cty.String:
+		return v.AsString(), nil
+	case typ == cty.Bool:
+		return v.True(), nil
+	case typ == cty.Number:
+		n := v.AsBigFloat()
+		if n.IsInt() {
+			if i, acc := n.Int64(); acc == big.Exact {
+				return i, nil
+			}
+			if u, acc := n.Uint64(); acc == big.Exact {
+				return u, nil
+			}
+		}
+		f, _ := n.Float64()
+		return f, nil
+	case typ.IsTupleType() || typ.IsListType() || typ.IsSetType():
+		list := make([]any, 0, v.LengthInt())
+		for it := v.ElementIterator(); it.Next(); {
+			_, ev := it.Element()
+			var e any
+			if e, err = goValue(ev); err != nil {
+				return nil, err
+			}
+			list = append(list, e)
+		}
+		return list, nil
+	case typ.IsObjectType() || typ.IsMapType():
+		m := make(map[string]any, v.LengthInt())
+		for it := v.ElementIterator(); it.Next(); {
+			k, ev := it.Element()
+			if m[k.AsString()], err = goValue(ev); err != nil {
+				return nil, err
+			}
+		}
+		return m, nil
+	}
+	return nil, fmt.Errorf("[hcl] unsupported value: %#v", v)
+}
+
 func ctyValue(v any) (ret cty.Value, err error) {
 	switch z := v.(type) {
+	case nil:
+		ret = cty.NullVal(cty.DynamicPseudoType)
+	case map[string]any:
+		m := make(map[string]cty.Value, len(z))
+		for k, it := range z {
+			if m[k], err = ctyValue(it); err != nil {
+				return
+			}
+		}
+		ret = cty.ObjectVal(m)
+	case float32:
+		return ctyValue(float64(z))
+	case float64:
+		if math.IsNaN(z) || math.IsInf(z, 0) {
+			return ret, fmt.Errorf("[hcl-write][ctyValue] unprocessed v: v = %+v", v)
+		}
+		ret = cty.NumberFloatVal(z)
 	// case map[string]any:
 	// 	bazBlock := body.AppendNewBlock(k, nil)
 	// 	bazBody := bazBlock.Body()
@@ -91,20 +188,13 @@ func ctyValue(v any) (ret cty.Value, err error) {
 	default:
 		rv := reflect.ValueOf(z)
 		if rv.Kind() == reflect.Slice {
-			if l := rv.Len(); l > 0 {
-				var values []cty.Value
-				for ix := 0; ix < l; ix++ {
-					iv := rv.Index(ix)
-					if val, err := ctyValue(iv.Interface()); err == nil {
-						values = append(values, val)
-					} else {
-						err = fmt.Errorf("[hcl-write][ctyValue] unprocessed v: v = %+v\n", v)
-					}
+			values := make([]cty.Value, rv.Len())
+			for ix := range values {
+				if values[ix], err = ctyValue(rv.Index(ix).Interface()); err != nil {
+					return
 				}
-				ret = cty.ListVal(values)
-			} else {
-				ret = cty.ListValEmpty(cty.Type{})
 			}
+			ret = cty.TupleVal(values)
 		} else {
 			err = fmt.Errorf("[hcl-write][ctyValue] unprocessed v: v = %+v\n", v)
 		}
@@ -112,33 +202,42 @@ func ctyValue(v any) (ret cty.Value, err error) {
 	return
 }
 
-func fill(p *ldr, body *hclwrite.Body, k string, v any) {
+func fill(p *ldr, body *hclwrite.Body, k string, v any) (err error) {
+	if !hclsyntax.ValidIdentifier(k) {
+		return fmt.Errorf("[hcl-write][fill] invalid identifier: k = %q", k)
+	}
 	switch z := v.(type) {
 	case map[string]any:
 		bazBlock := body.AppendNewBlock(k, nil)
 		bazBody := bazBlock.Body()
-		p.fill(bazBody, z)
+		err = p.fill(bazBody, z)
 
 	default:
-		val, err := ctyValue(z)
-		if err != nil {
-			err = fmt.Errorf("[hcl-write][fill] unprocessed k: k = %v, err: %w\n", k, err)
+		var val cty.Value
+		if val, err = ctyValue(z); err != nil {
+			return fmt.Errorf("[hcl-write][fill] unprocessed k: k = %v, err: %w", k, err)
 		}
 		body.SetAttributeValue(k, val)
 	}
+	return
 }
 
-func (p *ldr) fill(body *hclwrite.Body, m map[string]any) {
+func (p *ldr) fill(body *hclwrite.Body, m map[string]any) (err error) {
 	for k, v := range m {
-		fill(p, body, k, v)
+		if err = fill(p, body, k, v); err != nil {
+			return
+		}
 	}
+	return
 }
 
 // Marshal marshals the given config map to hcl bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	f := hclwrite.NewEmptyFile()
 	rootBody := f.Body()
-	p.fill(rootBody, m)
+	if err = p.fill(rootBody, m); err != nil {
+		return
+	}
 
 	// rootBody.SetAttributeValue("string", cty.StringVal("bar")) // this is overwritten later
 	// rootBody.AppendNewline()
@@ -174,7 +273,6 @@ func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	// bazBody.SetAttributeValue("baz", cty.ListValEmpty(cty.String))
 
 	data = f.Bytes()
-	err = nil
 	// err = store.ErrNotImplemented
 	return
 }
-- 
2.43.0


From 4b90fd21be3c9c59c6ec98bce871d55ef7238961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:14 +0000
Subject: [PATCH 71/76] fix: GetPosition of the env and flags providers
 returned the filter prefix of the names

---
 providers/env/env.go     | 2 +-
 providers/flags/flags.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index c572a41..f401ed8 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -202,6 +202,6 @@ func (s *pvdr) Write(data []byte) (err error) {
 }
 
 func (s *pvdr) GetCodec() (codec store.Codec) { return s.codec }
-func (s *pvdr) GetPosition() (pos string)     { return s.prefix }
+func (s *pvdr) GetPosition() (pos string)     { return s.storePrefix }
 func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.storePrefix = prefix }
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 490f570..896f7c6 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -206,6 +206,6 @@ func (s *pvdr) Write(data []byte) (err error) {
 }
 
 func (s *pvdr) GetCodec() (codec store.Codec) { return s.codec }
-func (s *pvdr) GetPosition() (pos string)     { return s.prefix }
+func (s *pvdr) GetPosition() (pos string)     { return s.storePrefix }
 func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.storePrefix = prefix }
-- 
2.43.0


From 579769839fdf4d2b44a58e518810fedb57c92e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 72/76] fix: ParseComplex lost the precision and range of
 complex128

---
 internal/times/integers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/times/integers.go b/internal/times/integers.go
index 7458445..cfe290d 100644
--- a/internal/times/integers.go
+++ b/internal/times/integers.go
@@ -42,12 +42,12 @@ func MustParseFloat(s string) (ret float64) {
 
 // ParseComplex is a helper
 func ParseComplex(s string) (ret complex128, err error) {
-	ret, err = strconv.ParseComplex(s, 64)
+	ret, err = strconv.ParseComplex(s, 128)
 	return
 }
 
 // MustParseComplex is a helper
 func MustParseComplex(s string) (ret complex128) {
-	ret, _ = strconv.ParseComplex(s, 64)
+	ret, _ = strconv.ParseComplex(s, 128)
 	return
 }
-- 
2.43.0


From 2a9f370b41290d22e6b2d44ee067309c157c1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 73/76] fix: MarshalEx of the hjson codec claimed success
 without any data

---
 codecs/hjson/hjson.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codecs/hjson/hjson.go b/codecs/hjson/hjson.go
index 1ebf044..befbc96 100644
--- a/codecs/hjson/hjson.go
+++ b/codecs/hjson/hjson.go
@@ -48,6 +48,7 @@ func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 }
 
 func (p *ldr) MarshalEx(m map[string]store.ValPkg) (data []byte, err error) {
+	err = store.ErrNotImplemented
 	return
 }
 
-- 
2.43.0


From fcdd3ab65bfd6a120866bce5e043186fca2473b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 74/76] fix: UnmarshalEx of the hjson codec delivered nodes
 inside unflattened lists

---
 codecs/hjson/hjson.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/codecs/hjson/hjson.go b/codecs/hjson/hjson.go
index befbc96..530cade 100644
--- a/codecs/hjson/hjson.go
+++ b/codecs/hjson/hjson.go
@@ -96,7 +96,7 @@ func (p *ldr) decode(data map[string]store.ValPkg, node *hjson.Node) (err error)
 			continue
 		case []any:
 			if !p.flattenSlice {
-				data[k] = store.ValPkg{Value: v,
+				data[k] = store.ValPkg{Value: plainValue(v),
 					Desc: cm.Before, Comment: cm.Key + cm.After, Tag: nil}
 				continue
 			}
@@ -114,6 +114,27 @@ func (p *ldr) decode(data map[string]store.ValPkg, node *hjson.Node) (err error)
 	return
 }
 
+// plainValue unwraps the nodes inside v.
+func plainValue(v any) any {
+	switch z := v.(type) {
+	case *hjson.Node:
+		return plainValue(z.Value)
+	case []any:
+		list := make([]any, len(z))
+		for i, it := range z {
+			list[i] = plainValue(it)
+		}
+		return list
+	case *hjson.OrderedMap:
+		m := make(map[string]any, len(z.Map))
+		for k, it := range z.Map {
+			m[k] = plainValue(it)
+		}
+		return m
+	}
+	return v
+}
+
 func (p *ldr) Load(file string) (data map[string]any, err error) {
 	// var f *os.File
 
-- 
2.43.0


From a1e472293b37448c2681ea83d747ad3705370e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:45 +0000
Subject: [PATCH 75/76] fix: a lookup left parameters of other patterns in the
 KVPair

A pattern which was tried but not matched had bound its parameters
already; they stayed in the KVPair along with those of the found
pattern, even if nothing was found at all.
---
 radix/node.go | 10 ++++++++--
 radix/trie.go |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 687dd96..f2fe5df 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -559,6 +559,7 @@ masterLoop:
 		// is the parent of other keys only.
 		var hit, pm, branch bool
 		var node, prnt *nodeS[T]
+		var bound, branchBound KVPair // bindings of a child, kept if it's the target
 		restPart := word[dstMatchedL:]
 		matched, partialMatched, child, parent = false, false, nil, nil
 		for _, literal := range []bool{true, false} {
@@ -566,13 +567,17 @@ masterLoop:
 				if ch.StartsWith(restPart[0]) != literal {
 					continue
 				}
-				hit, pm, node, prnt = ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
+				if kvpair != nil {
+					bound = make(KVPair)
+				}
+				hit, pm, node, prnt = ch.matchR(mctx, restPart, lastRuneIsDelimiter, s, bound)
 				if hit && node.isPath(mctx.delimiter) {
 					if !node.isBranch() {
+						kvpair.merge(bound)
 						return true, false, node, prnt
 					}
 					if !branch {
-						branch, matched, partialMatched, child, parent = true, true, false, node, prnt
+						branch, branchBound, matched, partialMatched, child, parent = true, bound, true, false, node, prnt
 					}
 					continue
 				}
@@ -581,6 +586,7 @@ masterLoop:
 				}
 			}
 		}
+		kvpair.merge(branchBound)
 	}
 	return
 }
diff --git a/radix/trie.go b/radix/trie.go
index fac9802..955aa3d 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -836,6 +836,12 @@ type matchCtx struct {
 
 type KVPair map[string]string
 
+func (s KVPair) merge(m KVPair) {
+	for k, v := range m {
+		s[k] = v
+	}
+}
+
 // Delimiter returns the current delimiter in using.
 //
 // A trieS-tree is a radix-tree, so child nodeS may split at any
-- 
2.43.0


From de0bf06217672773f04f84efdbb3d494f13e3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 76/76] fix: the file watcher missed changes of links given by
 an unclean or relative path, and of their later targets

---
 providers/file/file.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index 2bf9eef..58a51dc 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -131,15 +131,18 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	// Resolve symlinks and save the original path so that changes to symlinks
 	// can be detected.
 	var realPath string
-	realPath, err = filepath.EvalSymlinks(s.file)
+	realPath, err = resolve(s.file)
 	if err != nil {
 		return
 	}
-	realPath = filepath.Clean(realPath)
 
 	// Although only a single file is being watched, fsnotify has to watch
 	// the whole parent directory to pick up all events such as symlink changes.
-	fDir := filepath.Dir(s.file)
+	var fDir string
+	fDir, err = resolve(filepath.Dir(s.file))
+	if err != nil {
+		return
+	}
 
 	var w *fsnotify.Watcher
 	w, err = fsnotify.NewWatcher()
@@ -158,17 +161,27 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	}
 
 	s.done = make(chan struct{})
-	go s.watchRunner(ctx, cb, w, realPath, s.done)
+	go s.watchRunner(ctx, cb, w, fDir, realPath, s.done)
 	return nil
 }
 
-func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w *fsnotify.Watcher, realPath string, done <-chan struct{}) {
+// resolve returns the absolute path without any symlinks.
+func resolve(path string) (string, error) {
+	path, err := filepath.Abs(path)
+	if err != nil {
+		return "", err
+	}
+	return filepath.EvalSymlinks(path)
+}
+
+func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w *fsnotify.Watcher, fDir, realPath string, done <-chan struct{}) {
 	defer func() { _ = w.Close() }()
 
 	var (
 		// lastEvent     string
 		// lastEventTime time.Time
 		lastChange = changeS{provider: s}
+		ownPath    = filepath.Join(fDir, filepath.Base(s.file))
 	)
 
 	var ok bool
@@ -201,7 +214,7 @@ loop:
 
 			// Since the event is triggered on a directory, is this
 			// one on the file being watched?
-			if evFile != realPath && evFile != s.file {
+			if evFile != realPath && evFile != ownPath {
 				continue
 			}
 
@@ -214,12 +227,12 @@ loop:
 			// Resolve symlink to get the real path, in case the symlink's
 			// target has changed.
 			var curPath string
-			curPath, err = filepath.EvalSymlinks(s.file)
+			curPath, err = resolve(s.file)
 			if err != nil {
 				cb(nil, err)
 				break loop
 			}
-			lastChange.realPath = filepath.Clean(curPath)
+			lastChange.realPath, realPath = curPath, curPath
 
 			// Finally, we only care about create and write.
 			if event.Op&(fsnotify.Write|fsnotify.Create) == 0 {
-- 
2.43.0

