From 036cde3c70c6afc0822f070922c53c099b25c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 01/29] fix: redo the command that was undone, and drop undone
 commands on new ones

---
 pkg/app/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..bbd6f9c 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -87,7 +87,8 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
-	h.commands = append(h.commands, c)
+	// Executing a new Command discards the ones that were undone.
+	h.commands = append(h.commands[:h.commandsIdx+1], c)
 	h.commandsIdx++
 	return c.Execute(h.world)
 }
@@ -111,7 +112,7 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
+	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
 	if err != nil {
 		// We aren't going to validate state of the World. But a problem happened.
 		// Clear app, reset commandsIdx, and return the error.
-- 
2.43.0


From 81950ad5c5d288aa8c7b536d83970882b467964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 02/29] fix: delete the relationship that is named, not the one
 from an item to itself

---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From 4eb3a97eed705afcda28c00d431e2dd26df29ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 03/29] fix: report failed nest and free, and move items back
 on undo

---
 pkg/app/command.go | 83 ++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..923731f 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -262,29 +262,28 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 // ItemNestCommand represents a nest command for Item.
 type ItemNestCommand struct {
 	CommandBase
-	Ids          []string
-	ParentId     string
-	oldParentIds map[string]string
-	noNest       map[string]bool
+	Ids      []string
+	ParentId string
+	moved    []movedItem
 }
 
 func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
-	noNest := make(map[string]bool)
+	c.moved = nil
 	errs := make([]error, 0)
 	for _, id := range c.Ids {
 		oldParentId, found := w.Parent(id)
 		if !found {
-			noNest[id] = true
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
 		if oldParentId == c.ParentId {
-			noNest[id] = true
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			errs = append(errs, err)
+			continue
+		}
+		c.moved = append(c.moved, movedItem{id: id, oldParentId: oldParentId})
 	}
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
@@ -293,25 +292,18 @@ func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
 }
 
 func (c *ItemNestCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			w.Free(id)
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	return moveBack(w, c.moved)
 }
 
 // ItemFreeCommand represents a free command for Item.
 type ItemFreeCommand struct {
 	CommandBase
-	Ids          []string
-	oldParentIds map[string]string
+	Ids   []string
+	moved []movedItem
 }
 
 func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
+	c.moved = nil
 	errs := make([]error, 0)
 
 	for _, id := range c.Ids {
@@ -320,8 +312,15 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		w.Free(id)
+		if oldParentId == "" {
+			// Already free.
+			continue
+		}
+		if err := w.Free(id).Err(); err != nil {
+			errs = append(errs, err)
+			continue
+		}
+		c.moved = append(c.moved, movedItem{id: id, oldParentId: oldParentId})
 	}
 
 	if len(errs) > 0 {
@@ -331,13 +330,7 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 }
 
 func (c *ItemFreeCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	return moveBack(w, c.moved)
 }
 
 // ItemExistsCommand represents an exists command for Item.
@@ -734,9 +727,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Delete:
 		return &ItemDeleteCommand{CommandBase: base}, nil
 	case Nest:
-		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0], oldParentIds: make(map[string]string), noNest: make(map[string]bool)}, nil
+		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0]}, nil
 	case Free:
-		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds, oldParentIds: make(map[string]string)}, nil
+		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds}, nil
 	case Exists:
 		return &ItemExistsCommand{CommandBase: base}, nil
 	case InQuery:
@@ -779,6 +772,32 @@ func relCommand(base CommandBase, input grammar.InputAttributes) (Command, error
 	}
 }
 
+// movedItem records where an Item was before a command moved it.
+type movedItem struct {
+	id          string
+	oldParentId string // Empty string if root.
+}
+
+// moveBack returns every moved Item to its former parent, the last one moved first.
+func moveBack(w world.World, moved []movedItem) error {
+	errs := make([]error, 0)
+	for i := len(moved) - 1; i >= 0; i-- {
+		var err error
+		if moved[i].oldParentId == "" {
+			err = w.Free(moved[i].id).Err()
+		} else {
+			err = w.Nest(moved[i].id, moved[i].oldParentId).Err()
+		}
+		if err != nil {
+			errs = append(errs, err)
+		}
+	}
+	if len(errs) > 0 {
+		return errors.Join(errs...)
+	}
+	return nil
+}
+
 func limitFromInput(input grammar.InputAttributes) int {
 	v, ok := input.Params["limit"]
 	if !ok {
-- 
2.43.0


From 870972c2cba5a8a14d2f98569a0fb79d84c4e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 04/29] fix: use the item type names that the grammar and the
 printer use

---
 pkg/world/world.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..125acc3 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -118,7 +118,7 @@ func FromString(s string) (World, error) {
 			Name:      strPtr(item.Name),
 			Expanded:  strPtr(item.Expanded),
 			External:  boolPtr(item.External),
-			Type:      strPtr(strconv.Itoa(int(item.Type))),
+			Type:      strPtr(StringFromItemType(item.Type)),
 			Mechanism: strPtr(item.Mechanism),
 		})
 	}
@@ -401,10 +401,11 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 		item.External = *params.External
 	}
 	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
+		itemType := ItemTypeFromString(*params.Type)
+		if itemType == 0 && *params.Type != "" {
+			errs = append(errs, errors.New("unknown Item type").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "type", Value: *params.Type}))
 		} else {
-			errs = append(errs, err)
+			item.Type = itemType
 		}
 	}
 	if params.Mechanism != nil {
@@ -681,7 +682,7 @@ func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		(params.Type != nil && StringFromItemType(existing.Type) != *params.Type) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
-- 
2.43.0


From e03e5669abddb75967b6dac7b87b5f923a45a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 05/29] fix: keep every copy of an item or relationship in step
 with its attributes

---
 pkg/world/tree.go  | 11 +++++++++++
 pkg/world/world.go | 33 ++++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..6e87d7d 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -16,6 +16,7 @@ var emptyTree = newTree(nil, nil)
 type Tree interface {
 	Item() Item                          // Item returns the Item of this Tree.
 	AddOrMove(item *Item) error          // AddOrMove adds an Item to Tree.Components. If the Item already exists in a different Tree, it will be moved with all its Components.
+	Update(item Item)                    // Update replaces the Item that has the same ID in this Tree or its Components. If the Item doesn't exist, noop.
 	Has(id string, strict bool) bool     // Has returns whether the Item with the given ID is in this Tree. If not strict, search Component trees as well.
 	Find(id string) (Tree, bool)         // Find returns the Tree with the given ID, if it exists in this Tree or its Components.
 	Delete(id string)                    // Delete removes the Item with the given ID from this Tree. It will transfer Components to its parent.
@@ -163,6 +164,16 @@ func (t *tree) AddOrMove(item *Item) error {
 	return nil
 }
 
+func (t *tree) Update(item Item) {
+	if t.item != nil && t.item.Id == item.Id {
+		t.item = &item
+		return
+	}
+	for _, c := range t.components.ToSlice() {
+		c.Update(item)
+	}
+}
+
 func (t *tree) Has(id string, strict bool) bool {
 	if id == "" {
 		return false
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 125acc3..6044ab8 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -325,16 +325,18 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 		}
 		return w
 	}
-	item := Item{
-		Id: id,
+	item, err := itemSet(Item{Id: id}, params)
+	if err != nil {
+		w.latestErr = err
+		return w
 	}
-	w.Items[id] = item
-	w.ItemSet(id, params) // After we set in the tracking map on World.
-	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
 		w.latestErr = err
+		return w
 	}
+	w.Items[id] = item
+	w.latestItem = &item
 	return w
 }
 
@@ -383,9 +385,21 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	item, err := itemSet(item, params)
 	if err != nil {
 		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
 	w.latestItem = &item
+	// Keep the copies in the Tree and in the Rels in sync.
+	w.Tree.Update(item)
+	for k, rel := range w.Rels {
+		if rel.From.Id == id {
+			rel.From = item
+		}
+		if rel.To.Id == id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
 	return w
 }
 
@@ -468,12 +482,12 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 		}
 		return w
 	}
-	rel := Rel{
-		From: fromItem,
-		To:   toItem,
+	rel, err := relSet(Rel{From: fromItem, To: toItem}, params)
+	if err != nil {
+		w.latestErr = err
+		return w
 	}
 	w.Rels[rel.id()] = rel
-	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
 	w.latestRel = &rel
 	return w
 }
@@ -556,6 +570,7 @@ func (w *world) RelSet(fromId, toId string, params RelParams) WorldWithRel {
 	rel, err := relSet(rel, params)
 	if err != nil {
 		w.latestErr = err
+		return w
 	}
 	w.Rels[rel.id()] = rel
 	w.latestRel = &rel
-- 
2.43.0


From fabf8fb56740532607db101ba1efb235b1bc4c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 06/29] fix: update the parent of moved items, and refuse to
 nest an item inside itself

---
 pkg/world/tree.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6e87d7d..a5ed96a 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -154,8 +154,11 @@ func (t *tree) AddOrMove(item *Item) error {
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
 		// Just move the node to this Tree.
+		if t.item != nil && node.Has(t.item.Id, false) {
+			return errors.New("cannot move an Item into its own Components").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id})
+		}
 		node.Parent().Components().Remove(node)
-		t.components.Add(node)
+		t.adopt(node)
 		return nil
 	}
 	// Not in any Tree. Make it and add.
@@ -214,11 +217,23 @@ func (t *tree) Delete(id string) {
 		// The item doesn't exist here.
 		return
 	}
-	foundComponents := found.Components().ToSlice()
-	found.Parent().Components().Remove(found)
-	for _, c := range foundComponents {
-		found.Parent().Components().Add(c)
+	node, ok := found.(*tree)
+	if !ok || node.parent == nil {
+		// There is no parent to transfer the Components to.
+		return
+	}
+	node.parent.components.Remove(node)
+	for _, c := range node.components.ToSlice() {
+		node.parent.adopt(c)
+	}
+}
+
+// adopt adds the node to the Components of this Tree, and makes this Tree its parent.
+func (t *tree) adopt(node Tree) {
+	if n, ok := node.(*tree); ok {
+		n.parent = t
 	}
+	t.components.Add(node)
 }
 
 func (t *tree) GetDescendantIds(id string) []string {
-- 
2.43.0


From 02a20a7609f9b6421fd9450ccdd24882860fa99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 07/29] fix: look at nested items in to? and from? queries
 unless strict, and match from? by source

---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 6044ab8..3cecfcd 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -521,7 +521,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -535,11 +535,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From 284bac7b78a68066f3ab206fead99eee2fbce57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 08/29] fix: list the components of an item for item in

---
 pkg/app/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 923731f..3efc2ff 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -719,6 +719,10 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if input.ResourceId != "" {
+			// The components of one Item: `item in x`.
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
-- 
2.43.0


From 53257019437ce485ddd0b60fe2d5f0ca92723368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 09/29] fix: reset the status of the last operation in every
 operation

---
 pkg/world/world.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 3cecfcd..46c67f6 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -357,11 +357,13 @@ func (w *world) ItemDelete(id string) World {
 }
 
 func (w *world) ItemFetch(id string) (Item, bool) {
+	w.resetLatestTrackers()
 	item, ok := w.Items[id]
 	return item, ok
 }
 
 func (w *world) ItemList(limit int) []Item {
+	w.resetLatestTrackers()
 	items := make([]Item, 0)
 	for _, item := range w.Items {
 		if limit > 0 && len(items) >= limit {
@@ -519,6 +521,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 }
 
 func (w *world) RelTo(toId string, strict bool) []Rel {
+	w.resetLatestTrackers()
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
 	if !strict {
@@ -533,6 +536,7 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 }
 
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
+	w.resetLatestTrackers()
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
 	if !strict {
@@ -547,6 +551,7 @@ func (w *world) RelFrom(fromId string, strict bool) []Rel {
 }
 
 func (w *world) RelList(limit int) []Rel {
+	w.resetLatestTrackers()
 	rels := make([]Rel, 0)
 	for _, rel := range w.Rels {
 		if limit > 0 && len(rels) >= limit {
@@ -635,7 +640,6 @@ func (w *world) Nest(childId, parentId string) WorldWithItem {
 			WithData(errors.KvPair{Key: "childId", Value: childId})
 		return w
 	}
-	w.latestItem = &item
 	if _, ok := w.ItemFetch(parentId); !ok {
 		w.latestErr = errors.
 			New("parentId for Nest not found").
@@ -654,6 +658,7 @@ func (w *world) Nest(childId, parentId string) WorldWithItem {
 			WithData(errors.KvPair{Key: "parentId", Value: parentId})
 		return w
 	}
+	w.latestItem = &item
 	w.latestErr = tree.AddOrMove(&item)
 	return w
 }
-- 
2.43.0


From a3603b3451d5175cd5d41067297d4d6474da238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 10/29] fix: print and list in one order whatever the map and
 set order is

---
 pkg/world/tree.go  | 13 +++++++++++--
 pkg/world/world.go | 35 ++++++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index a5ed96a..c98a52a 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -133,7 +133,7 @@ func (t *tree) String() string {
 
 	treeString += "::["
 	componentTrees := make([]string, 0)
-	for _, c := range t.components.ToSlice() {
+	for _, c := range sortedComponents(t) {
 		componentTrees = append(componentTrees, c.String())
 	}
 	if len(componentTrees) > 0 {
@@ -245,7 +245,7 @@ func (t *tree) GetDescendantIds(id string) []string {
 		return []string{}
 	}
 	descendantIds := make([]string, 0)
-	for _, c := range found.Components().ToSlice() {
+	for _, c := range sortedComponents(found) {
 		descendantIds = append(descendantIds, c.Item().Id)
 		descendantIds = append(descendantIds, c.GetDescendantIds(c.Item().Id)...)
 	}
@@ -283,6 +283,15 @@ func (t *tree) Empty() bool {
 
 // --- INTERNAL HELPERS ---
 
+// sortedComponents returns the Components of t in order of their Item IDs, because set order is not guaranteed.
+func sortedComponents(t Tree) []Tree {
+	components := t.Components().ToSlice()
+	sort.Slice(components, func(i, j int) bool {
+		return components[i].Item().Id < components[j].Item().Id
+	})
+	return components
+}
+
 func newTree(item *Item, parent *tree) *tree {
 	return &tree{
 		item:       item,
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 46c67f6..82f3053 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -262,8 +262,8 @@ func CreateWorld(name string) World {
 func (w *world) String() string {
 	treeString := w.Tree.String()
 	allRels := make([]string, 0)
-	for _, rel := range w.Rels {
-		allRels = append(allRels, rel.String())
+	for _, k := range sortedKeys(w.Rels) {
+		allRels = append(allRels, w.Rels[k].String())
 	}
 	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
 		w.Version_,
@@ -365,11 +365,11 @@ func (w *world) ItemFetch(id string) (Item, bool) {
 func (w *world) ItemList(limit int) []Item {
 	w.resetLatestTrackers()
 	items := make([]Item, 0)
-	for _, item := range w.Items {
+	for _, k := range sortedKeys(w.Items) {
 		if limit > 0 && len(items) >= limit {
 			break
 		}
-		items = append(items, item)
+		items = append(items, w.Items[k])
 	}
 	return items
 }
@@ -449,7 +449,7 @@ func (w *world) ItemComponents(parentId string) ([]Item, bool) {
 	if !ok {
 		return []Item{}, false
 	}
-	components := tree.Components().ToSlice()
+	components := sortedComponents(tree)
 	items := make([]Item, len(components))
 	for i, c := range components {
 		items[i] = c.Item()
@@ -512,7 +512,8 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := append(w.Tree.GetDescendantIds(fromId), fromId)
 	rightIds := append(w.Tree.GetDescendantIds(toId), toId)
-	for _, rel := range w.Rels {
+	for _, k := range sortedKeys(w.Rels) {
+		rel := w.Rels[k]
 		if slices.Contains(leftIds, rel.From.Id) && slices.Contains(rightIds, rel.To.Id) {
 			rels = append(rels, rel)
 		}
@@ -527,7 +528,8 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
-	for _, rel := range w.Rels {
+	for _, k := range sortedKeys(w.Rels) {
+		rel := w.Rels[k]
 		if slices.Contains(rightIds, rel.To.Id) {
 			rels = append(rels, rel)
 		}
@@ -542,7 +544,8 @@ func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for _, rel := range w.Rels {
+	for _, k := range sortedKeys(w.Rels) {
+		rel := w.Rels[k]
 		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
@@ -553,11 +556,11 @@ func (w *world) RelFrom(fromId string, strict bool) []Rel {
 func (w *world) RelList(limit int) []Rel {
 	w.resetLatestTrackers()
 	rels := make([]Rel, 0)
-	for _, rel := range w.Rels {
+	for _, k := range sortedKeys(w.Rels) {
 		if limit > 0 && len(rels) >= limit {
 			break
 		}
-		rels = append(rels, rel)
+		rels = append(rels, w.Rels[k])
 	}
 	return rels
 }
@@ -622,7 +625,7 @@ func (w *world) Components(parentId string) ([]string, bool) {
 	if !ok {
 		return []string{}, false
 	}
-	components := tree.Components().ToSlice()
+	components := sortedComponents(tree)
 	ids := make([]string, len(components))
 	for i, c := range components {
 		ids[i] = c.Item().Id
@@ -746,6 +749,16 @@ func (w *world) resetLatestTrackers() {
 	w.latestErr = nil
 }
 
+// sortedKeys returns the keys of m in order, because map order is not guaranteed.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func strPtr(s string) *string {
 	return &s
 }
-- 
2.43.0


From 05fb1de6f1f3592a597f8b3bdb7bc0c33d2b7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 11/29] fix: compare trees and relationships independently of
 their order

---
 pkg/world/tree.go  |  2 +-
 pkg/world/world.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index c98a52a..987580e 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -74,7 +74,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 82f3053..18cd68f 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -214,10 +214,16 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
-		return rels1[i].From.Id < rels1[j].From.Id
+		if rels1[i].From.Id != rels1[j].From.Id {
+			return rels1[i].From.Id < rels1[j].From.Id
+		}
+		return rels1[i].To.Id < rels1[j].To.Id
 	})
 	sort.Slice(rels2, func(i, j int) bool {
-		return rels2[i].From.Id < rels2[j].From.Id
+		if rels2[i].From.Id != rels2[j].From.Id {
+			return rels2[i].From.Id < rels2[j].From.Id
+		}
+		return rels2[i].To.Id < rels2[j].To.Id
 	})
 	for i, rel1 := range rels1 {
 		if !RelEqual(rel1, rels2[i]) {
-- 
2.43.0


From d308a32359c57740474e57aad0d02b42b641596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 12/29] fix: quote the header of a printed world, and read all
 of it back

---
 pkg/world/world.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 18cd68f..23bcd98 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,17 +97,15 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	w := CreateWorld(strings.Trim(p.WorldParams["name"], "\""))
 
-	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
-		w.SetVersion(version)
-	}
-	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
-	}
-	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
+	version, err := strconv.Atoi(p.WorldParams["version"])
+	if err != nil {
+		return nil, errors.New("error parsing World version").UseCode(errors.TopolithErrorInvalid).WithError(err).WithData(errors.KvPair{Key: "version", Value: p.WorldParams["version"]})
 	}
+	w.SetVersion(version)
+	w.SetId(p.WorldParams["id"])
+	w.SetExpanded(strings.Trim(p.WorldParams["expanded"], "\""))
 
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
@@ -271,7 +269,7 @@ func (w *world) String() string {
 	for _, k := range sortedKeys(w.Rels) {
 		allRels = append(allRels, w.Rels[k].String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
-- 
2.43.0


From 18d183e25cf3812c6744f8a1957201e993fdc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 13/29] fix: reject world texts that are not worlds or cannot
 be restored

---
 pkg/world/world.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 23bcd98..58dd0d1 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -96,6 +96,9 @@ func FromString(s string) (World, error) {
 	if err != nil {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
+	if p.StmtType != "WorldObject" {
+		return nil, errors.New("input is not a World").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 
 	w := CreateWorld(strings.Trim(p.WorldParams["name"], "\""))
 
@@ -112,13 +115,18 @@ func FromString(s string) (World, error) {
 		if err != nil {
 			return nil, err
 		}
-		w.ItemCreate(item.Id, ItemParams{
+		if _, ok := w.ItemFetch(item.Id); ok {
+			return nil, errors.New("duplicate Item in World").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "id", Value: item.Id})
+		}
+		if err := w.ItemCreate(item.Id, ItemParams{
 			Name:      strPtr(item.Name),
 			Expanded:  strPtr(item.Expanded),
 			External:  boolPtr(item.External),
 			Type:      strPtr(StringFromItemType(item.Type)),
 			Mechanism: strPtr(item.Mechanism),
-		})
+		}).Err(); err != nil {
+			return nil, err
+		}
 	}
 
 	// We added our items, but they all sit at Tree root. We need to nest them properly.
@@ -127,6 +135,9 @@ func FromString(s string) (World, error) {
 		node     grammar.Node
 		parentId string
 	}
+	if strings.HasPrefix(p.TreeString, "tree{nil") {
+		p.Tree.Id = "" // The root isn't an Item, so nothing nests under it.
+	}
 	stack := []queueItem{{p.Tree, ""}}
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
@@ -135,7 +146,9 @@ func FromString(s string) (World, error) {
 			stack = append(stack, queueItem{child, current.node.Id})
 		}
 		if current.parentId != "" {
-			w.Nest(current.node.Id, current.parentId)
+			if err := w.Nest(current.node.Id, current.parentId).Err(); err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -144,12 +157,14 @@ func FromString(s string) (World, error) {
 		if err != nil {
 			return nil, err
 		}
-		w.RelCreate(rel.From.Id, rel.To.Id, RelParams{
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, RelParams{
 			Verb:      strPtr(rel.Verb),
 			Mechanism: strPtr(rel.Mechanism),
 			Async:     boolPtr(rel.Async),
 			Expanded:  strPtr(rel.Expanded),
-		})
+		}).Err(); err != nil {
+			return nil, err
+		}
 	}
 
 	return w, nil
-- 
2.43.0


From 2e6e27197e219a86f4322e2870ffcc83f7905d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 14/29] fix: reject text after a world or a tree

---
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..bff44db 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -27,7 +27,7 @@ type Parser Peg {
 }
 
 Valid
-  <- Command / Response / WorldObject / Tree / StatusObject
+  <- Command / Response / WorldObject END / Tree END / StatusObject
 
 Response
   <- Objects? _ DELIMITER DELIMITER _ StatusObject END
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..ccb2ce3 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -885,7 +885,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 
 	_rules = [...]func() bool{
 		nil,
-		/* 0 Valid <- <(Command / Response / ((&('t') Tree) | (&('\t' | '\n' | '\r' | ' ' | '$') WorldObject) | (&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') StatusObject)))> */
+		/* 0 Valid <- <(Command / Response / ((&('t') (Tree END)) | (&('\t' | '\n' | '\r' | ' ' | '$') (WorldObject END)) | (&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') StatusObject)))> */
 		func() bool {
 			position0, tokenIndex0 := position, tokenIndex
 			{
@@ -1836,10 +1836,16 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 							if !_rules[ruleTree]() {
 								goto l0
 							}
+							if !_rules[ruleEND]() {
+								goto l0
+							}
 						case '\t', '\n', '\r', ' ', '$':
 							if !_rules[ruleWorldObject]() {
 								goto l0
 							}
+							if !_rules[ruleEND]() {
+								goto l0
+							}
 						default:
 							if !_rules[ruleStatusObject]() {
 								goto l0
-- 
2.43.0


From 3eaba16e8ee6ea954e31db1cd263a1d20f658996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 15/29] fix: find every saved world by its name, inside the
 directory

---
 pkg/persistence/main.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..610f992 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -2,6 +2,7 @@ package persistence
 
 import (
 	"github.com/williamflynt/topolith/pkg/world"
+	"net/url"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -44,22 +45,26 @@ func (fp *filePersistence) Save(world world.World) error {
 		return err
 	}
 
-	filePath := filepath.Join(fp.directory, world.Name()+".world")
 	data := world.String()
-	return os.WriteFile(filePath, []byte(data), 0644)
+	return os.WriteFile(fp.worldPath(world.Name()), []byte(data), 0644)
+}
+
+// worldPath returns the path of the file for the world with the given name.
+// The name is escaped, so that it can't lead out of the directory.
+func (fp *filePersistence) worldPath(name string) string {
+	return filepath.Join(fp.directory, url.PathEscape(name)+".world")
 }
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	data, err := os.ReadFile(fp.worldPath(name))
+	if os.IsNotExist(err) && filepath.Ext(name) == ".world" {
+		// There is no saved world with this name, so it's the path of a file.
+		data, err = os.ReadFile(name)
 	}
-	data, err := os.ReadFile(filePath)
 	if err != nil {
 		return nil, err
 	}
-	println(string(data))
 	return world.FromString(string(data))
 }
 
@@ -72,8 +77,12 @@ func (fp *filePersistence) ListWorlds() ([]string, error) {
 
 	var worlds []string
 	for _, file := range files {
-		if filepath.Ext(file.Name()) == ".world" {
-			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
+		if !file.IsDir() && filepath.Ext(file.Name()) == ".world" {
+			name, err := url.PathUnescape(file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
+			if err != nil {
+				continue // Not the file of a saved world.
+			}
+			worlds = append(worlds, name)
 		}
 	}
 	return worlds, nil
-- 
2.43.0


From a194b663141ac3991cbf2fa27369912ccd224986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 16/29] fix: keep the previous file of a world until the new
 one is complete

---
 pkg/persistence/main.go | 51 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 610f992..48da49a 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -46,7 +46,56 @@ func (fp *filePersistence) Save(world world.World) error {
 	}
 
 	data := world.String()
-	return os.WriteFile(fp.worldPath(world.Name()), []byte(data), 0644)
+	return replaceFile(fp.worldPath(world.Name()), []byte(data))
+}
+
+// replaceFile puts a file with the given data at filePath, or leaves what is there as it is.
+func replaceFile(filePath string, data []byte) error {
+	dir := filepath.Dir(filePath)
+	tmp, err := os.CreateTemp(dir, "*.tmp")
+	if err != nil {
+		return err
+	}
+	if err := writeAndClose(tmp, data); err != nil {
+		os.Remove(tmp.Name())
+		return err
+	}
+	if err := os.Rename(tmp.Name(), filePath); err != nil {
+		os.Remove(tmp.Name())
+		return err
+	}
+	return syncDir(dir)
+}
+
+// writeAndClose writes the data to the file, flushes it to disk and closes the file.
+func writeAndClose(file *os.File, data []byte) error {
+	_, err := file.Write(data)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
+// syncDir flushes the entries of a directory to disk, where the OS supports it.
+func syncDir(dir string) error {
+	if runtime.GOOS == "windows" {
+		return nil
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	err = d.Sync()
+	if closeErr := d.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // worldPath returns the path of the file for the world with the given name.
-- 
2.43.0


From 8cc0149a061ba8b923e1f0ae2f60c6c89c2afd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 17/29] fix: refuse to save a world that would not load back
 unchanged

---
 pkg/persistence/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 48da49a..3cd9f75 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -1,6 +1,7 @@
 package persistence
 
 import (
+	"fmt"
 	"github.com/williamflynt/topolith/pkg/world"
 	"net/url"
 	"os"
@@ -40,13 +41,21 @@ func getDefaultDirectory() string {
 }
 
 // Save saves a world to a file.
-func (fp *filePersistence) Save(world world.World) error {
+// It refuses to save a world that wouldn't load back as it is.
+func (fp *filePersistence) Save(w world.World) error {
 	if err := os.MkdirAll(fp.directory, 0755); err != nil {
 		return err
 	}
 
-	data := world.String()
-	return replaceFile(fp.worldPath(world.Name()), []byte(data))
+	data := w.String()
+	loaded, err := world.FromString(data)
+	if err != nil {
+		return fmt.Errorf("world %q cannot be saved: %w", w.Name(), err)
+	}
+	if !world.WorldEqual(loaded, w) {
+		return fmt.Errorf("world %q cannot be saved: it would not load back unchanged", w.Name())
+	}
+	return replaceFile(fp.worldPath(w.Name()), []byte(data))
 }
 
 // replaceFile puts a file with the given data at filePath, or leaves what is there as it is.
-- 
2.43.0


From d14478425619710d41bbca59e14600b5bf1b4112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 18/29] fix: never write to the data or causes of the error
 that another is derived from

---
 pkg/errors/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..eb403b8 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -1,6 +1,9 @@
 package errors
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
 type TopolithErrorCode int
@@ -37,7 +40,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(slices.Clip(e.Data), data...) // Clip, so that we never write to the Data of another error.
 	return e
 }
 
@@ -47,6 +50,7 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
+	e.errs = slices.Clip(e.errs) // So that we never write to the errs of another error.
 	for _, err := range errs {
 		e.errs = append(e.errs, err)
 	}
-- 
2.43.0


From e78e1491f59ef1e7bba237686f9cd718b937aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 19/29] fix: return an error for a relationship text that is
 not one

---
 pkg/world/rel.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..d5035ff 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -37,9 +37,6 @@ func (r Rel) String() string {
 	if len(paramRepr) > 0 {
 		rel += " " + strings.Join(paramRepr, " ")
 	}
-	if _, err := grammar.Parse(rel); err != nil {
-		panic(err)
-	}
 	return rel
 }
 
@@ -48,6 +45,9 @@ func RelFromString(w World, s string) (Rel, error) {
 	if err != nil {
 		return Rel{}, fmt.Errorf("error parsing Rel: %w", err)
 	}
+	if p.InputAttributes.ResourceType != "rel" || len(p.InputAttributes.SecondaryIds) == 0 {
+		return Rel{}, errors.New("input is not a Rel").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	fromItem, ok := w.ItemFetch(p.InputAttributes.ResourceId)
 	if !ok {
 		return Rel{}, errors.New("from Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("FromItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "fromId", Value: p.InputAttributes.ResourceId})
-- 
2.43.0


From 1910fc8176596ce7b0829079b0f57c7f363bfc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 20/29] fix: give every tree read from an empty text its own
 state

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 987580e..c4c7bee 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -37,7 +37,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil
 	}
 
 	p, err := grammar.Parse(s)
-- 
2.43.0


From fb26e3e049352ec9696f87a29ba377901e54829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 21/29] fix: return a copy of the history

---
 pkg/app/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index bbd6f9c..a84ad4c 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -6,6 +6,7 @@ import (
 	"github.com/williamflynt/topolith/pkg/grammar"
 	"github.com/williamflynt/topolith/pkg/persistence"
 	"github.com/williamflynt/topolith/pkg/world"
+	"slices"
 )
 
 type App interface {
@@ -69,7 +70,7 @@ func (h *app) Exec(s string) string {
 }
 
 func (h *app) History() []Command {
-	return h.commands[:h.commandsIdx+1]
+	return slices.Clone(h.commands[:h.commandsIdx+1])
 }
 
 func (h *app) CanUndo() bool {
-- 
2.43.0


From c76372a036f08a8a1464967687f20f1917906f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 22/29] fix: restore the place, components and relationships of
 a deleted item on undo

---
 pkg/app/command.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 3efc2ff..0234811 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -234,8 +234,11 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 // ItemDeleteCommand represents a delete command for Item.
 type ItemDeleteCommand struct {
 	CommandBase
-	oldParams world.ItemParams
-	noDelete  bool
+	oldParams       world.ItemParams
+	oldParentId     string // Empty string if root.
+	oldComponentIds []string
+	oldRels         []world.Rel
+	noDelete        bool
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -249,6 +252,9 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	c.oldParentId, _ = w.Parent(c.Id)
+	c.oldComponentIds, _ = w.Components(c.Id)
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +262,26 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if c.oldParentId != "" {
+		if err := w.Nest(c.Id, c.oldParentId).Err(); err != nil {
+			return err
+		}
+	}
+	for _, id := range c.oldComponentIds {
+		if err := w.Nest(id, c.Id).Err(); err != nil {
+			return err
+		}
+	}
+	for _, rel := range c.oldRels {
+		oldParams := world.RelParams{Verb: strPtr(rel.Verb), Mechanism: strPtr(rel.Mechanism), Async: boolPtr(rel.Async), Expanded: strPtr(rel.Expanded)}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, oldParams).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // ItemNestCommand represents a nest command for Item.
-- 
2.43.0


From 56673b40c9f2ee0ae850bd35f9b3ed1180450fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 23/29] fix: keep relationships apart whose identifiers contain
 the separator

---
 pkg/world/rel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index d5035ff..a50fee2 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -87,7 +88,8 @@ func (r Rel) id() string {
 }
 
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	// Quote, because the separator may be part of an ID.
+	return strconv.Quote(fromId) + RelIdSeparator + strconv.Quote(toId)
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From 75de5153a6863460c9e3e3defe6a368f9098ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 24/29] fix: split identifier lists at identifiers, not at the
 spaces inside quoted ones

---
 pkg/grammar/grammar.peg    |  2 +-
 pkg/grammar/grammar.peg.go |  4 ++--
 pkg/grammar/main.go        | 13 ++++++++++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index bff44db..6688d3c 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,7 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
+    ids := splitIds(text)
     for _, id := range ids {
       p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
     }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index ccb2ce3..737ced9 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -699,7 +699,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
+			ids := splitIds(text)
 			for _, id := range ids {
 				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 			}
@@ -5386,7 +5386,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 141 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
+		   ids := splitIds(text)
 		   for _, id := range ids {
 		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 		   }
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..2790f92 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -1,6 +1,9 @@
 package grammar
 
-import "strings"
+import (
+	"regexp"
+	"strings"
+)
 
 // TODO(wf 27 May 2024): We shouldn't be setting raw strings
 //  (ex: `Flags` -> []Flag)
@@ -70,6 +73,14 @@ func Parse(s string) (*Parser, error) {
 
 // --- INTERNAL ---
 
+// idPattern matches one identifier of an identifier list, which may be quoted.
+var idPattern = regexp.MustCompile(`"[^"]*"|[^"\s]+`)
+
+// splitIds splits the text of an identifier list into its identifiers.
+func splitIds(s string) []string {
+	return idPattern.FindAllString(s, -1)
+}
+
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
-- 
2.43.0


From cc8e76d28c7033698d601542fce89c2d16418c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 25/29] fix: print errors in the form that the grammar accepts

---
 pkg/errors/main.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index eb403b8..814e07a 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -3,6 +3,7 @@ package errors
 import (
 	"fmt"
 	"slices"
+	"strings"
 )
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
@@ -81,9 +82,21 @@ func (e TopolithError) String() string {
 			}
 			errStrings = append(errStrings, err.Error())
 		}
-		return fmt.Sprintf(`%d error "%s: %s" errors=[%s]`, e.Code, e.Description, e.Message, fmt.Sprintf(`"%s"`, errStrings))
+		return fmt.Sprintf(`%d error "%s"`, e.Code, quotable(fmt.Sprintf("%s: %s errors=[%s]", e.Description, e.Message, strings.Join(errStrings, "; "))))
 	}
-	return fmt.Sprintf(`%d error "%s: %s"`, e.Code, e.Description, e.Message)
+	return fmt.Sprintf(`%d error "%s"`, e.Code, quotable(e.Description+": "+e.Message))
+}
+
+// quotable replaces the characters that can't be part of a quoted text in our grammar.
+func quotable(s string) string {
+	return strings.Map(func(r rune) rune {
+		switch {
+		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', strings.ContainsRune("-_.,!@#$%^&*()[]+=~;: ", r):
+			return r
+		default:
+			return '.'
+		}
+	}, s)
 }
 
 // Error returns a string representation of the TopolithError.
-- 
2.43.0


From b20f79f3e9c271f052d7aaf356d6c412a88097c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 26/29] fix: answer 'item in' with an empty identifier for that
 item, not with a list of all

---
 pkg/app/command.go         | 2 +-
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 3 ++-
 pkg/grammar/main.go        | 1 +
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 0234811..fbddcfe 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -744,7 +744,7 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
-		if input.ResourceId != "" {
+		if input.InItem {
 			// The components of one Item: `item in x`.
 			return &ItemComponentsListCommand{CommandBase: base}, nil
 		}
diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 6688d3c..edeb7ad 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -65,7 +65,7 @@ FetchQuery
 ListQuery
   <- (Item / Rel ) List Limit?
   # Get all Items under this one in the Tree.
-  / Item IN Identifier  { p.InputAttributes.Verb = "list" }
+  / Item IN Identifier  { p.InputAttributes.Verb = "list"; p.InputAttributes.InItem = true }
   / ToQuery Identifier
   / FromQuery Identifier
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 737ced9..79e14e6 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -634,6 +634,7 @@ func (p *Parser) Execute() {
 			p.InputAttributes.Verb = "fetch"
 		case ruleAction4:
 			p.InputAttributes.Verb = "list"
+			p.InputAttributes.InItem = true
 		case ruleAction5:
 			p.InputAttributes.Verb = "create-or-fetch"
 		case ruleAction6:
@@ -5330,7 +5331,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 126 Action3 <- <{ p.InputAttributes.Verb = "fetch" }> */
 		nil,
-		/* 127 Action4 <- <{ p.InputAttributes.Verb = "list" }> */
+		/* 127 Action4 <- <{ p.InputAttributes.Verb = "list"; p.InputAttributes.InItem = true }> */
 		nil,
 		/* 128 Action5 <- <{ p.InputAttributes.Verb = "create-or-fetch" }> */
 		nil,
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 2790f92..a7f9d25 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -26,6 +26,7 @@ type InputAttributes struct {
 	Verb         string            `json:"verb"`
 	Params       map[string]string `json:"params"`
 	Flags        []string          `json:"flags"`
+	InItem       bool              `json:"inItem"` // InItem marks a list that is restricted to the components of the Item ResourceId.
 
 	Raw string `json:"raw"`
 }
-- 
2.43.0


From 16b32dc8c23b10b2dd102b16699bb37cca6a571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 27/29] fix: report nesting a root item under an empty
 identifier as an error

---
 pkg/app/command.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index fbddcfe..34b97a9 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -301,7 +301,8 @@ func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		if oldParentId == c.ParentId {
+		if oldParentId == c.ParentId && c.ParentId != "" {
+			// Already there.
 			continue
 		}
 		if err := w.Nest(id, c.ParentId).Err(); err != nil {
-- 
2.43.0


From ede15410f781b9c37c114d295971ea13f429fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:05 +0000
Subject: [PATCH 28/29] fix: an identifier may begin with the letters of a verb

`item deleteme` deleted the item "me", `item settings` set "tings" and
`item inventory` listed what is in "ventory": a verb was recognised within a
word. Verbs now end where the word ends.
---
 pkg/grammar/grammar.peg    |  22 +++---
 pkg/grammar/grammar.peg.go | 134 ++++++++++++++++++++++++++++++++++---
 2 files changed, 138 insertions(+), 18 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index edeb7ad..3c88198 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -236,15 +236,15 @@ REL         <- 'rel' 's'? _
 REL_EXISTS  <- 'rel?' _
 FROM_QUERY  <- 'from?' _    # Rels from this Item to anywhere.
 TO_QUERY    <- 'to?' _      # Rels from anywhere to this Item.
-IN          <- 'in' _
+IN          <- 'in' !WordChar _
 IN_QUERY    <- 'in?' _      # Items under this one in the Tree, recursively unless STRICT set.
-CREATE      <- 'create' _
-DELETE      <- 'delete' _
-SET         <- 'set' _
-CLEAR       <- 'clear' _
-FETCH       <- 'fetch' _
-LIST        <- 'list' _
-EXISTS      <- 'exists' _
+CREATE      <- 'create' !WordChar _
+DELETE      <- 'delete' !WordChar _
+SET         <- 'set' !WordChar _
+CLEAR       <- 'clear' !WordChar _
+FETCH       <- 'fetch' !WordChar _
+LIST        <- 'list' !WordChar _
+EXISTS      <- 'exists' !WordChar _
 FREE        <- 'free' _
 NEST        <- 'nest' _
 TRUE        <- 'true' _
@@ -289,4 +289,8 @@ EOL
   <- '\r\n' / '\n' / '\r'
 
 END
-  <- !.
\ No newline at end of file
+  <- !.
+
+# A verb ends where the word ends: `item settings` names the item "settings".
+WordChar
+  <- [a-zA-Z0-9-_]
\ No newline at end of file
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 79e14e6..422bb22 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -140,6 +140,7 @@ const (
 	ruleWhitespace
 	ruleEOL
 	ruleEND
+	ruleWordChar
 	ruleAction0
 	ruleAction1
 	rulePegText
@@ -324,6 +325,7 @@ var rul3s = [...]string{
 	"Whitespace",
 	"EOL",
 	"END",
+	"WordChar",
 	"Action0",
 	"Action1",
 	"PegText",
@@ -517,7 +519,7 @@ type Parser struct {
 
 	Buffer string
 	buffer []rune
-	rules  [181]func() bool
+	rules  [182]func() bool
 	parse  func(rule ...int) error
 	reset  func()
 	Pretty bool
@@ -4507,7 +4509,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position443, tokenIndex443
 			return false
 		},
-		/* 79 IN <- <('i' 'n' _)> */
+		/* 79 IN <- <('i' 'n' !WordChar _)> */
 		func() bool {
 			position445, tokenIndex445 := position, tokenIndex
 			{
@@ -4520,6 +4522,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l445
 				}
 				position++
+				{
+					position9007, tokenIndex9007 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9007
+					}
+					goto l445
+				l9007:
+					position, tokenIndex = position9007, tokenIndex9007
+				}
 				if !_rules[rule_]() {
 					goto l445
 				}
@@ -4557,7 +4568,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position447, tokenIndex447
 			return false
 		},
-		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' _)> */
+		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' !WordChar _)> */
 		func() bool {
 			position449, tokenIndex449 := position, tokenIndex
 			{
@@ -4586,6 +4597,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l449
 				}
 				position++
+				{
+					position9000, tokenIndex9000 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9000
+					}
+					goto l449
+				l9000:
+					position, tokenIndex = position9000, tokenIndex9000
+				}
 				if !_rules[rule_]() {
 					goto l449
 				}
@@ -4596,7 +4616,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position449, tokenIndex449
 			return false
 		},
-		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' _)> */
+		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' !WordChar _)> */
 		func() bool {
 			position451, tokenIndex451 := position, tokenIndex
 			{
@@ -4625,6 +4645,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l451
 				}
 				position++
+				{
+					position9001, tokenIndex9001 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9001
+					}
+					goto l451
+				l9001:
+					position, tokenIndex = position9001, tokenIndex9001
+				}
 				if !_rules[rule_]() {
 					goto l451
 				}
@@ -4635,7 +4664,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position451, tokenIndex451
 			return false
 		},
-		/* 83 SET <- <('s' 'e' 't' _)> */
+		/* 83 SET <- <('s' 'e' 't' !WordChar _)> */
 		func() bool {
 			position453, tokenIndex453 := position, tokenIndex
 			{
@@ -4652,6 +4681,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l453
 				}
 				position++
+				{
+					position9002, tokenIndex9002 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9002
+					}
+					goto l453
+				l9002:
+					position, tokenIndex = position9002, tokenIndex9002
+				}
 				if !_rules[rule_]() {
 					goto l453
 				}
@@ -4662,7 +4700,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position453, tokenIndex453
 			return false
 		},
-		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' _)> */
+		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' !WordChar _)> */
 		func() bool {
 			position455, tokenIndex455 := position, tokenIndex
 			{
@@ -4687,6 +4725,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l455
 				}
 				position++
+				{
+					position9003, tokenIndex9003 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9003
+					}
+					goto l455
+				l9003:
+					position, tokenIndex = position9003, tokenIndex9003
+				}
 				if !_rules[rule_]() {
 					goto l455
 				}
@@ -4697,7 +4744,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position455, tokenIndex455
 			return false
 		},
-		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' _)> */
+		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' !WordChar _)> */
 		func() bool {
 			position457, tokenIndex457 := position, tokenIndex
 			{
@@ -4722,6 +4769,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l457
 				}
 				position++
+				{
+					position9004, tokenIndex9004 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9004
+					}
+					goto l457
+				l9004:
+					position, tokenIndex = position9004, tokenIndex9004
+				}
 				if !_rules[rule_]() {
 					goto l457
 				}
@@ -4732,7 +4788,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position457, tokenIndex457
 			return false
 		},
-		/* 86 LIST <- <('l' 'i' 's' 't' _)> */
+		/* 86 LIST <- <('l' 'i' 's' 't' !WordChar _)> */
 		func() bool {
 			position459, tokenIndex459 := position, tokenIndex
 			{
@@ -4753,6 +4809,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l459
 				}
 				position++
+				{
+					position9005, tokenIndex9005 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9005
+					}
+					goto l459
+				l9005:
+					position, tokenIndex = position9005, tokenIndex9005
+				}
 				if !_rules[rule_]() {
 					goto l459
 				}
@@ -4763,7 +4828,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position459, tokenIndex459
 			return false
 		},
-		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' _)> */
+		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' !WordChar _)> */
 		func() bool {
 			position461, tokenIndex461 := position, tokenIndex
 			{
@@ -4792,6 +4857,15 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l461
 				}
 				position++
+				{
+					position9006, tokenIndex9006 := position, tokenIndex
+					if !_rules[ruleWordChar]() {
+						goto l9006
+					}
+					goto l461
+				l9006:
+					position, tokenIndex = position9006, tokenIndex9006
+				}
 				if !_rules[rule_]() {
 					goto l461
 				}
@@ -5317,6 +5391,48 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position519, tokenIndex519
 			return false
 		},
+		/* 121 WordChar <- <((&('_') '_') | (&('-') '-') | (&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))> */
+		func() bool {
+			position9100, tokenIndex9100 := position, tokenIndex
+			{
+				position9101 := position
+				{
+					switch buffer[position] {
+					case '_':
+						if buffer[position] != rune('_') {
+							goto l9100
+						}
+						position++
+					case '-':
+						if buffer[position] != rune('-') {
+							goto l9100
+						}
+						position++
+					case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+						if c := buffer[position]; c < rune('0') || c > rune('9') {
+							goto l9100
+						}
+						position++
+					case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+						if c := buffer[position]; c < rune('A') || c > rune('Z') {
+							goto l9100
+						}
+						position++
+					default:
+						if c := buffer[position]; c < rune('a') || c > rune('z') {
+							goto l9100
+						}
+						position++
+					}
+				}
+
+				add(ruleWordChar, position9101)
+			}
+			return true
+		l9100:
+			position, tokenIndex = position9100, tokenIndex9100
+			return false
+		},
 		/* 122 Action0 <- <{
 		   p.StmtType = "Response"
 		 }> */
-- 
2.43.0


From 711fe6940d5603058f0e4100f73d2b128f54e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 29/29] fix: keep a copy of the item that is added to a tree

---
 pkg/world/tree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index c4c7bee..5be75cf 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -161,8 +161,9 @@ func (t *tree) AddOrMove(item *Item) error {
 		t.adopt(node)
 		return nil
 	}
-	// Not in any Tree. Make it and add.
-	itemTree := newTree(item, t)
+	// Not in any Tree. Make it and add, with a copy: the caller may go on to change its Item.
+	added := *item
+	itemTree := newTree(&added, t)
 	t.components.Add(itemTree)
 	return nil
 }
-- 
2.43.0

