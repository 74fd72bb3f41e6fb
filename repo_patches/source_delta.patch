From 0563423cf1650cdd533eed035628fc5abf3efa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 01/30] fix: logic lookups skip documents that are not live or
 outside docIds

Must, should and not-in lookups returned documents whose removal or
re-index is pending, and should and not-in lookups ignored docIds.
---
 core/indexer.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index ac9fc56..6a5eb3a 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -640,7 +640,8 @@ func (indexer *Indexer) LogicLookup(
 			shouldFound := indexer.findInShouldTable(shouldTable, baseDocId)
 			notInFound := indexer.findInNotInTable(notInTable, baseDocId)
 
-			if mustFound && shouldFound && !notInFound {
+			if mustFound && shouldFound && !notInFound &&
+				indexer.isVisible(baseDocId, docIds) {
 				indexedDoc := types.IndexedDoc{}
 				indexedDoc.DocId = baseDocId
 				if !countDocsOnly {
@@ -656,13 +657,14 @@ func (indexer *Indexer) LogicLookup(
 	// 不存在逻辑与检索, 则必须存在逻辑或检索
 	// 这时进行求并集操作
 	if logic.Should == true || len(logic.Expr.Should) > 0 {
-		docs, numDocs = indexer.unionTable(shouldTable, notInTable, countDocsOnly)
+		docs, numDocs = indexer.unionTable(shouldTable, notInTable, docIds, countDocsOnly)
 	} else {
 		uintDocIds := make([]string, 0)
 		// 当前直接返回 Not 逻辑数据
 		for i := 0; i < len(notInTable); i++ {
 			for _, docid := range notInTable[i].docIds {
-				if indexer.findInNotInTable(notInTable, docid) {
+				if indexer.findInNotInTable(notInTable, docid) &&
+					indexer.isVisible(docid, docIds) {
 					uintDocIds = append(uintDocIds, docid)
 				}
 			}
@@ -812,6 +814,19 @@ func computeTokenProximity(table []*KeywordIndices,
 	return
 }
 
+// isVisible 判断文档是否存在于索引中 (没有等待删除或等待加入),
+// 且当 docIds 不为 nil 时属于 docIds 指定的文档; 调用者需持有 tableLock
+func (indexer *Indexer) isVisible(docId string, docIds map[string]bool) bool {
+	if docIds != nil {
+		if _, found := docIds[docId]; !found {
+			return false
+		}
+	}
+
+	docState, ok := indexer.tableLock.docsState[docId]
+	return ok && docState == 0
+}
+
 // 在逻辑与反向表中对docid进行查找, 若每个反向表都找到,
 // 则返回 true, 有一个找不到则返回 false
 func (indexer *Indexer) findInMustTable(table []*KeywordIndices, docId string) bool {
@@ -867,13 +882,14 @@ func (indexer *Indexer) findInNotInTable(table []*KeywordIndices, docId string)
 // 先求差集再求并集， 可以减小内存占用
 // docid 要保序
 func (indexer *Indexer) unionTable(table []*KeywordIndices,
-	notInTable []*KeywordIndices, countDocsOnly bool) (
+	notInTable []*KeywordIndices, inDocIds map[string]bool, countDocsOnly bool) (
 	docs []types.IndexedDoc, numDocs int) {
 	docIds := make([]string, 0)
 	// 求并集
 	for i := 0; i < len(table); i++ {
 		for _, docid := range table[i].docIds {
-			if !indexer.findInNotInTable(notInTable, docid) {
+			if !indexer.findInNotInTable(notInTable, docid) &&
+				indexer.isVisible(docid, inDocIds) {
 				found := false
 				for _, v := range docIds {
 					if v == docid {
-- 
2.43.0


From a69df49216119aaf273c43d66501cc4081c7b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 02/30] fix: each logic clause uses its own keywords

The keywords given for one clause replaced the query keywords for the
clauses evaluated after it.
---
 core/indexer.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 6a5eb3a..0d58d27 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -571,11 +571,12 @@ func (indexer *Indexer) LogicLookup(
 	// 如果存在与搜索键, 则要求所有的与搜索键都有对应的反向表
 	mustTable := make([]*KeywordIndices, 0)
 
+	mustExpr := logicExpr
 	if len(logic.Expr.Must) > 0 {
-		logicExpr = logic.Expr.Must
+		mustExpr = logic.Expr.Must
 	}
 	if logic.Must == true || len(logic.Expr.Must) > 0 {
-		for _, keyword := range logicExpr {
+		for _, keyword := range mustExpr {
 			indices, found := indexer.tableLock.table[keyword]
 			if !found {
 				return
@@ -590,12 +591,13 @@ func (indexer *Indexer) LogicLookup(
 	// 2. 逻辑或和逻辑与之间是与关系
 	shouldTable := make([]*KeywordIndices, 0)
 
+	shouldExpr := logicExpr
 	if len(logic.Expr.Should) > 0 {
-		logicExpr = logic.Expr.Should
+		shouldExpr = logic.Expr.Should
 	}
 
 	if logic.Should == true || len(logic.Expr.Should) > 0 {
-		for _, keyword := range logicExpr {
+		for _, keyword := range shouldExpr {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				shouldTable = append(shouldTable, indices)
@@ -611,11 +613,12 @@ func (indexer *Indexer) LogicLookup(
 	// 可以不存在逻辑非搜索（NotInTable为空), 允许逻辑非搜索键对应的反向表为空
 	notInTable := make([]*KeywordIndices, 0)
 
+	notInExpr := logicExpr
 	if len(logic.Expr.NotIn) > 0 {
-		logicExpr = logic.Expr.NotIn
+		notInExpr = logic.Expr.NotIn
 	}
 	if logic.NotIn == true || len(logic.Expr.NotIn) > 0 {
-		for _, keyword := range logicExpr {
+		for _, keyword := range notInExpr {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				notInTable = append(notInTable, indices)
-- 
2.43.0


From 22f6251a7141e130398032e7b5766d83c5326537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 03/30] fix: lookups without tokens or must keywords do not
 panic

A labels-only lookup of a position index and a flagged must clause
without any keyword indexed an empty table.
---
 core/indexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 0d58d27..371c294 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -494,7 +494,7 @@ func (indexer *Indexer) internalLookup(
 						numTokensWithLocations++
 					}
 				}
-				if numTokensWithLocations != len(tokens) {
+				if len(tokens) == 0 || numTokensWithLocations != len(tokens) {
 					if !countDocsOnly {
 						docs = append(docs, types.IndexedDoc{
 							DocId: baseDocId,
@@ -628,7 +628,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 开始检索
 	numDocs = 0
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
+	if len(mustTable) > 0 {
 		// 如果存在逻辑与检索
 		for idx := indexer.getIndexLen(mustTable[0]) - 1; idx >= 0; idx-- {
 			baseDocId := indexer.getDocId(mustTable[0], idx)
-- 
2.43.0


From b0c012237388c37e05101ce065023bebd6f3b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 04/30] fix: HasDoc and LogicLookup take the table lock

Both are exported and read the document states and the keyword table
without it, racing with index updates.
---
 core/indexer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 371c294..b811e70 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -99,6 +99,9 @@ func (indexer *Indexer) getDocId(ti *KeywordIndices, i int) string {
 
 // HasDoc doc is exist return true
 func (indexer *Indexer) HasDoc(docId string) bool {
+	indexer.tableLock.RLock()
+	defer indexer.tableLock.RUnlock()
+
 	docState, ok := indexer.tableLock.docsState[docId]
 	if ok && docState == 0 {
 		return true
@@ -393,7 +396,7 @@ func (indexer *Indexer) Lookup(
 			logic[0].Should == true || logic[0].NotIn == true
 
 		if logic != nil && len(keywords) > 0 && loc {
-			docs, numDocs = indexer.LogicLookup(
+			docs, numDocs = indexer.logicLookup(
 				docIds, countDocsOnly, keywords, logic[0])
 
 			return
@@ -404,7 +407,7 @@ func (indexer *Indexer) Lookup(
 		not := len(logic[0].Expr.NotIn) >= 0
 
 		if logic != nil && expr && not {
-			docs, numDocs = indexer.LogicLookup(
+			docs, numDocs = indexer.logicLookup(
 				docIds, countDocsOnly, keywords, logic[0])
 
 			return
@@ -562,6 +565,17 @@ func (indexer *Indexer) LogicLookup(
 	docIds map[string]bool, countDocsOnly bool, logicExpr []string,
 	logic types.Logic) (docs []types.IndexedDoc, numDocs int) {
 
+	indexer.tableLock.RLock()
+	defer indexer.tableLock.RUnlock()
+
+	return indexer.logicLookup(docIds, countDocsOnly, logicExpr, logic)
+}
+
+// logicLookup 调用者需持有 tableLock
+func (indexer *Indexer) logicLookup(
+	docIds map[string]bool, countDocsOnly bool, logicExpr []string,
+	logic types.Logic) (docs []types.IndexedDoc, numDocs int) {
+
 	// // 有效性检查, 不允许只出现逻辑非检索, 也不允许与或非都不存在
 	// if Logic.Must == true && Logic.Should == true && Logic.NotIn == true {
 	// 	return
-- 
2.43.0


From f7405b7177cfe8a0a59c0425b5c36c164c872bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 05/30] fix: take removeCacheLock before tableLock in
 AddDocToCache

RemoveDocToCache takes them in this order, so concurrent adds and
removals of indexed documents could deadlock.
---
 core/indexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index b811e70..5336317 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -129,6 +129,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 	docSize := indexer.addCacheLock.addCachePointer >= indexer.initOptions.DocCacheSize
 	if docSize || forceUpdate {
+		indexer.removeCacheLock.Lock()
 		indexer.tableLock.Lock()
 
 		position := 0
@@ -146,11 +147,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 				if docState == 0 {
 					// delete docs
-					indexer.removeCacheLock.Lock()
 					indexer.removeCacheLock.removeCache[indexer.removeCacheLock.removeCachePointer] =
 						docIndex.DocId
 					indexer.removeCacheLock.removeCachePointer++
-					indexer.removeCacheLock.Unlock()
 
 					indexer.tableLock.docsState[docIndex.DocId] = 1
 					indexer.numDocs--
@@ -162,6 +161,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		}
 
 		indexer.tableLock.Unlock()
+		indexer.removeCacheLock.Unlock()
 		if indexer.RemoveDocToCache("0", forceUpdate) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
-- 
2.43.0


From 655293f67b312a76155d3657baa91076437102d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 06/30] fix: grow the add and remove caches instead of
 overrunning them

Documents waiting for a removal stay in the add cache, so it could fill
up with them and the next add wrote behind its end.
---
 core/indexer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 5336317..8d2ada5 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -123,7 +123,8 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 	indexer.addCacheLock.Lock()
 	if doc != nil {
-		indexer.addCacheLock.addCache[indexer.addCacheLock.addCachePointer] = doc
+		indexer.addCacheLock.addCache = append(
+			indexer.addCacheLock.addCache[:indexer.addCacheLock.addCachePointer], doc)
 		indexer.addCacheLock.addCachePointer++
 	}
 
@@ -147,8 +148,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 				if docState == 0 {
 					// delete docs
-					indexer.removeCacheLock.removeCache[indexer.removeCacheLock.removeCachePointer] =
-						docIndex.DocId
+					indexer.removeCacheLock.removeCache = append(
+						indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer],
+						docIndex.DocId)
 					indexer.removeCacheLock.removeCachePointer++
 
 					indexer.tableLock.docsState[docIndex.DocId] = 1
@@ -270,7 +272,8 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		indexer.tableLock.Lock()
 		docState, ok := indexer.tableLock.docsState[docId]
 		if ok && docState == 0 {
-			indexer.removeCacheLock.removeCache[indexer.removeCacheLock.removeCachePointer] = docId
+			indexer.removeCacheLock.removeCache = append(
+				indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer], docId)
 			indexer.removeCacheLock.removeCachePointer++
 			indexer.tableLock.docsState[docId] = 1
 			indexer.numDocs--
-- 
2.43.0


From 7c48ed6495c8ddfef838f1a46aac3ec17d32e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 07/30] fix: do not use the caches' memory after releasing
 their locks

The flushed part of a cache was sorted and indexed while later calls
could already overwrite it.
---
 core/indexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 8d2ada5..b005479 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -169,7 +169,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 			position = 0
 		}
 
-		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
+		// AddDocs 在释放锁之后使用这些文档, 不能与 addCache 共享内存
+		addCachedDocs := append(types.DocsIndex{},
+			indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]...)
 		indexer.addCacheLock.addCachePointer = position
 
 		indexer.addCacheLock.Unlock()
@@ -289,7 +291,9 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 	docSizeFU := indexer.removeCacheLock.removeCachePointer >= indexer.initOptions.DocCacheSize ||
 		forceUpdate
 	if indexer.removeCacheLock.removeCachePointer > 0 && docSizeFU {
-		removeCacheddocs := indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer]
+		// RemoveDocs 在释放锁之后使用这些文档, 不能与 removeCache 共享内存
+		removeCacheddocs := append(types.DocsId{},
+			indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer]...)
 		indexer.removeCacheLock.removeCachePointer = 0
 		indexer.removeCacheLock.Unlock()
 		sort.Sort(removeCacheddocs)
-- 
2.43.0


From bb448861a328a6143b5c2ce92f0eceec2991d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 08/30] fix: the last version of a document added to the cache
 wins

Partitioning the cache by swapping and sorting it with an unstable sort
could change the order of several versions of one document.
---
 core/indexer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index b005479..01bd8ea 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -134,6 +134,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.tableLock.Lock()
 
 		position := 0
+		ready := make(types.DocsIndex, 0, indexer.addCacheLock.addCachePointer)
 		for i := 0; i < indexer.addCacheLock.addCachePointer; i++ {
 			docIndex := indexer.addCacheLock.addCache[i]
 
@@ -141,10 +142,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 			if ok && docState <= 1 {
 				// ok && docState == 0 表示存在于索引中，需先删除再添加
 				// ok && docState == 1 表示不一定存在于索引中，等待删除，需先删除再添加
-				if position != i {
-					indexer.addCacheLock.addCache[position], indexer.addCacheLock.addCache[i] =
-						indexer.addCacheLock.addCache[i], indexer.addCacheLock.addCache[position]
-				}
+				indexer.addCacheLock.addCache[position] = docIndex
 
 				if docState == 0 {
 					// delete docs
@@ -157,10 +155,14 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 					indexer.numDocs--
 				}
 				position++
+				continue
 			} else if !ok {
 				indexer.tableLock.docsState[docIndex.DocId] = 2
 			}
+			ready = append(ready, docIndex)
 		}
+		// 保持加入的先后顺序，同一文档以最后加入的为准
+		copy(indexer.addCacheLock.addCache[position:], ready)
 
 		indexer.tableLock.Unlock()
 		indexer.removeCacheLock.Unlock()
@@ -175,7 +177,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.addCacheLock.addCachePointer = position
 
 		indexer.addCacheLock.Unlock()
-		sort.Sort(addCachedDocs)
+		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
 	} else {
 		indexer.addCacheLock.Unlock()
-- 
2.43.0


From 4d2255610f14dbcf7bf68cca78b85dc90cd113dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 09/30] fix: a document removed while being added can be added
 again

Its state stayed "waiting for removal" for ever, so that later adds of
the same id were held back in the cache or skipped.
---
 core/indexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/indexer.go b/core/indexer.go
index 01bd8ea..ed3050b 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -205,6 +205,8 @@ func (indexer *Indexer) AddDocs(docs *types.DocsIndex) {
 		if ok && docState == 1 {
 			// 如果此时 docState 仍为 1，说明该文档需被删除
 			// docState 合法状态为 nil & 2，保证一定不会插入已经在索引表中的文档
+			// 清除状态，否则该文档再也无法加入
+			delete(indexer.tableLock.docsState, doc.DocId)
 			continue
 		}
 
-- 
2.43.0


From 691f0de1cb1105e21de99a7eb76997fd4d72a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 10/30] fix: result windows of any offset and max are valid

---
 core/ranker.go   |  9 +++++----
 engine.go        | 11 ++++++-----
 ranker_worker.go |  6 +++++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/ranker.go b/core/ranker.go
index 5742568..99b9ff3 100755
--- a/core/ranker.go
+++ b/core/ranker.go
@@ -110,14 +110,15 @@ func (ranker *Ranker) RemoveDoc(docId string) {
 
 func maxOutput(options types.RankOpts, docsLen int) (int, int) {
 	var start, end int
-	if options.MaxOutputs != 0 {
+	if options.OutputOffset > 0 {
 		start = utils.MinInt(options.OutputOffset, docsLen)
-		end = utils.MinInt(options.OutputOffset+options.MaxOutputs, docsLen)
-		return start, end
 	}
 
-	start = utils.MinInt(options.OutputOffset, docsLen)
 	end = docsLen
+	if options.MaxOutputs > 0 {
+		// compare with what is left, offset+max may overflow
+		end = start + utils.MinInt(options.MaxOutputs, docsLen-start)
+	}
 	return start, end
 }
 
diff --git a/engine.go b/engine.go
index 5a83df7..38acc6b 100755
--- a/engine.go
+++ b/engine.go
@@ -526,14 +526,15 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 
 func maxRankOutput(rankOpts types.RankOpts, rankLen int) (int, int) {
 	var start, end int
-	if rankOpts.MaxOutputs == 0 {
+	if rankOpts.OutputOffset > 0 {
 		start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-		end = rankLen
-		return start, end
 	}
 
-	start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-	end = utils.MinInt(start+rankOpts.MaxOutputs, rankLen)
+	end = rankLen
+	if rankOpts.MaxOutputs > 0 {
+		// compare with what is left, offset+max may overflow
+		end = start + utils.MinInt(rankOpts.MaxOutputs, rankLen-start)
+	}
 	return start, end
 }
 
diff --git a/ranker_worker.go b/ranker_worker.go
index ef60590..dab85e3 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -60,8 +60,12 @@ func (engine *Engine) rankerAddDoc(shard int) {
 func (engine *Engine) rankerRank(shard int) {
 	for {
 		request := <-engine.rankerRankChans[shard]
-		if request.options.MaxOutputs != 0 {
+		if request.options.MaxOutputs > 0 && request.options.OutputOffset > 0 {
 			request.options.MaxOutputs += request.options.OutputOffset
+			if request.options.MaxOutputs < 0 {
+				// overflow, offset+max is more than any shard holds
+				request.options.MaxOutputs = 0
+			}
 		}
 		request.options.OutputOffset = 0
 		outputDocs, numDocs := engine.rankers[shard].Rank(request.docs,
-- 
2.43.0


From d349b0d59cb8535b628dbf67b603b8a150cf59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 11/30] fix: failing to open badger is an error, not an exit

---
 store/badger_store.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index faf8d9b..1eb08b8 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -15,8 +15,6 @@
 package store
 
 import (
-	"log"
-
 	"github.com/dgraph-io/badger"
 )
 
@@ -40,10 +38,10 @@ func OpenBadger(dbPath string) (Store, error) {
 	// opt.SyncWrites = true
 	kv, err := badger.Open(opt)
 	if err != nil {
-		log.Fatal("badger NewKV: ", err)
+		return nil, err
 	}
 
-	return &Badger{kv}, err
+	return &Badger{kv}, nil
 }
 
 // WALName is useless for this kv database
-- 
2.43.0


From 932da76684aacd5e23e3606abf769efb5205ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 12/30] fix: bolt Get returns its own copy of the value

---
 store/bolt_store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index b9988e2..680bc2b 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -65,7 +65,10 @@ func (s *Bolt) Set(k []byte, v []byte) error {
 // Any error that is returned from the function is returned from the View() method.
 func (s *Bolt) Get(k []byte) (b []byte, err error) {
 	err = s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		// the bytes are only valid during the transaction
+		if val := tx.Bucket(gdocs).Get(k); val != nil {
+			b = append([]byte{}, val...)
+		}
 		return nil
 	})
 	return
-- 
2.43.0


From 530120e33db30d0e84c314142f36b084351a2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 13/30] fix: release the leveldb iterator on every path

---
 store/ldb_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/ldb_store.go b/store/ldb_store.go
index ee9eba8..357f1d2 100755
--- a/store/ldb_store.go
+++ b/store/ldb_store.go
@@ -87,6 +87,7 @@ func (s *Leveldb) Len() (leveldb.Sizes, error) {
 // ForEach get all key and value
 func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 	iter := s.db.NewIterator(nil, nil)
+	defer iter.Release()
 	for iter.Next() {
 		// Remember that the contents of the returned slice should not be modified, and
 		// only valid until the next call to Next.
@@ -96,7 +97,6 @@ func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 			return err
 		}
 	}
-	iter.Release()
 	return iter.Error()
 }
 
-- 
2.43.0


From 45106df3ddae522d74c4628a45534ef87650e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 14/30] fix: Has means the same in every store

---
 store/badger_store.go | 8 ++++----
 store/bolt_store.go   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index 1eb08b8..2bfe28c 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -92,12 +92,12 @@ func (s *Badger) Delete(k []byte) error {
 // Has returns true if the DB does contains the given key.
 func (s *Badger) Has(k []byte) (bool, error) {
 	// return s.db.Exists(k)
-	val, err := s.Get(k)
-	if string(val) == "" && err != nil {
-		return false, err
+	_, err := s.Get(k)
+	if err == badger.ErrKeyNotFound {
+		return false, nil
 	}
 
-	return true, err
+	return err == nil, err
 }
 
 // Len returns the size of lsm and value log files in bytes.
diff --git a/store/bolt_store.go b/store/bolt_store.go
index 680bc2b..64a8786 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -91,8 +91,8 @@ func (s *Bolt) Has(k []byte) (bool, error) {
 		return nil
 	})
 
-	// b == nil
-	if err != nil || string(b) == "" {
+	// an empty value is not nil
+	if err != nil || b == nil {
 		return false, err
 	}
 
-- 
2.43.0


From 9cdd9d82d863c0bb885ac71333dd024a4831dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 15/30] fix: read the engine's shared counters atomically

---
 counters.go | 14 ++++++++------
 engine.go   | 16 ++++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/counters.go b/counters.go
index b625429..6a1d71f 100755
--- a/counters.go
+++ b/counters.go
@@ -15,32 +15,34 @@
 
 package riot
 
+import "sync/atomic"
+
 // NumTokenAdded added token index number
 func (engine *Engine) NumTokenAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumIndexed documents indexed number
 func (engine *Engine) NumIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumRemoved documents removed number
 func (engine *Engine) NumRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
 
 // NumTokenIndexAdded added token index number, deprecated
 func (engine *Engine) NumTokenIndexAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumDocsIndexed documents indexed number, deprecated
 func (engine *Engine) NumDocsIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumDocsRemoved documents removed number, deprecated
 func (engine *Engine) NumDocsRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
diff --git a/engine.go b/engine.go
index 38acc6b..4c74057 100755
--- a/engine.go
+++ b/engine.go
@@ -217,7 +217,7 @@ func (engine *Engine) Store() {
 		runtime.Gosched()
 
 		inx := atomic.LoadUint64(&engine.numDocsIndexed)
-		numDoced := engine.numIndexingReqs == inx
+		numDoced := atomic.LoadUint64(&engine.numIndexingReqs) == inx
 
 		if numDoced {
 			break
@@ -352,7 +352,8 @@ func (engine *Engine) Init(options types.EngineOpts) {
 		engine.Store()
 	}
 
-	atomic.AddUint64(&engine.numDocsStored, engine.numIndexingReqs)
+	atomic.AddUint64(&engine.numDocsStored,
+		atomic.LoadUint64(&engine.numIndexingReqs))
 }
 
 // IndexDoc add the document to the index
@@ -814,11 +815,13 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		inxd := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsIndexed)
-		numRm := engine.numRemovingReqs * uint64(engine.initOptions.NumShards)
+		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
+		inxd := numInx == atomic.LoadUint64(&engine.numDocsIndexed)
+		numRm := atomic.LoadUint64(&engine.numRemovingReqs) *
+			uint64(engine.initOptions.NumShards)
 		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
 
-		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
+		nums := numInx == atomic.LoadUint64(&engine.numDocsStored)
 		stored := !engine.initOptions.UseStore || nums
 
 		if inxd && rmd && stored {
@@ -832,7 +835,8 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		numf := engine.numForceUpdatingReqs * uint64(engine.initOptions.NumShards)
+		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) *
+			uint64(engine.initOptions.NumShards)
 		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
 
 		if forced {
-- 
2.43.0


From bdf0e296927d9378ef2b71402a3fd1b5c6261be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 16/30] fix: HasDoc does not grow the shard list

---
 riot.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/riot.go b/riot.go
index ffc121b..be398b0 100644
--- a/riot.go
+++ b/riot.go
@@ -23,7 +23,6 @@ import (
 	"encoding/gob"
 
 	"github.com/go-ego/murmur"
-	"github.com/go-ego/riot/core"
 	"github.com/go-ego/riot/types"
 	toml "github.com/go-vgo/gt/conf"
 )
@@ -105,8 +104,6 @@ func NewEngine(conf ...interface{}) *Engine {
 // HasDoc if the document is exist return true
 func (engine *Engine) HasDoc(docId string) bool {
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexers = append(engine.indexers, core.Indexer{})
-
 		has := engine.indexers[shard].HasDoc(docId)
 
 		if has {
-- 
2.43.0


From 9d482161d6449daee1199e99c209beca4a515493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 17/30] fix: Flush waits for the rankers

---
 engine.go        | 7 ++++++-
 ranker_worker.go | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 4c74057..ab3f1bb 100755
--- a/engine.go
+++ b/engine.go
@@ -74,6 +74,8 @@ type Engine struct {
 	numForceUpdatingReqs uint64
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
+	numRankersAdded      uint64
+	numRankersRemoved    uint64
 
 	// 记录初始化参数
 	initOptions types.EngineOpts
@@ -821,10 +823,13 @@ func (engine *Engine) Flush() {
 			uint64(engine.initOptions.NumShards)
 		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
 
+		ranked := numInx == atomic.LoadUint64(&engine.numRankersAdded)
+		rankRmd := numRm == atomic.LoadUint64(&engine.numRankersRemoved)
+
 		nums := numInx == atomic.LoadUint64(&engine.numDocsStored)
 		stored := !engine.initOptions.UseStore || nums
 
-		if inxd && rmd && stored {
+		if inxd && rmd && ranked && rankRmd && stored {
 			// 保证 CHANNEL 中 REQUESTS 全部被执行完
 			break
 		}
diff --git a/ranker_worker.go b/ranker_worker.go
index dab85e3..3f54f8c 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -16,6 +16,8 @@
 package riot
 
 import (
+	"sync/atomic"
+
 	"github.com/go-ego/riot/types"
 )
 
@@ -54,6 +56,7 @@ func (engine *Engine) rankerAddDoc(shard int) {
 			engine.rankers[shard].AddDoc(request.docId, request.fields,
 				request.content, request.attri)
 		}
+		atomic.AddUint64(&engine.numRankersAdded, 1)
 	}
 }
 
@@ -80,5 +83,6 @@ func (engine *Engine) rankerRemoveDoc(shard int) {
 	for {
 		request := <-engine.rankerRemoveDocChans[shard]
 		engine.rankers[shard].RemoveDoc(request.docId)
+		atomic.AddUint64(&engine.numRankersRemoved, 1)
 	}
 }
-- 
2.43.0


From df3d45e33019f9120b1928fdeb8459bed216976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 18/30] fix: stored documents are removed in order and before
 Flush returns

---
 engine.go       | 9 +++++++--
 store_worker.go | 7 +++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index ab3f1bb..7e45ff4 100755
--- a/engine.go
+++ b/engine.go
@@ -76,6 +76,7 @@ type Engine struct {
 	numDocsStored        uint64
 	numRankersAdded      uint64
 	numRankersRemoved    uint64
+	numStoreRemoved      uint64
 
 	// 记录初始化参数
 	initOptions types.EngineOpts
@@ -461,7 +462,9 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 		// 从数据库中删除
 		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
 
-		go engine.storeRemoveDoc(docId, hash)
+		// through the queue of the shard, in order with the documents stored
+		engine.storeIndexDocChans[hash] <- storeIndexDocReq{
+			docId: docId, remove: true}
 	}
 }
 
@@ -827,7 +830,9 @@ func (engine *Engine) Flush() {
 		rankRmd := numRm == atomic.LoadUint64(&engine.numRankersRemoved)
 
 		nums := numInx == atomic.LoadUint64(&engine.numDocsStored)
-		stored := !engine.initOptions.UseStore || nums
+		storeRmd := atomic.LoadUint64(&engine.numRemovingReqs) ==
+			atomic.LoadUint64(&engine.numStoreRemoved)
+		stored := !engine.initOptions.UseStore || (nums && storeRmd)
 
 		if inxd && rmd && ranked && rankRmd && stored {
 			// 保证 CHANNEL 中 REQUESTS 全部被执行完
diff --git a/store_worker.go b/store_worker.go
index 6463dfd..532d2f6 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -28,12 +28,19 @@ type storeIndexDocReq struct {
 	docId string
 	data  types.DocData
 	// data        types.DocumentIndexData
+	remove bool
 }
 
 func (engine *Engine) storeIndexDoc(shard int) {
 	for {
 		request := <-engine.storeIndexDocChans[shard]
 
+		if request.remove {
+			engine.storeRemoveDoc(request.docId, uint32(shard))
+			atomic.AddUint64(&engine.numStoreRemoved, 1)
+			continue
+		}
+
 		// 得到 key
 		b := []byte(request.docId)
 
-- 
2.43.0


From d89112c8a5d9c37cdaf8f7a96670b3e061aa1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 19/30] fix: report storage failures in the log

---
 engine.go       |  8 ++++++--
 store_worker.go | 19 ++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/engine.go b/engine.go
index 7e45ff4..3617c89 100755
--- a/engine.go
+++ b/engine.go
@@ -230,7 +230,9 @@ func (engine *Engine) Store() {
 
 	// 关闭并重新打开数据库
 	for shard := 0; shard < engine.initOptions.StoreShards; shard++ {
-		engine.dbs[shard].Close()
+		if err := engine.dbs[shard].Close(); err != nil {
+			log.Println("Unable to close database: ", err)
+		}
 		dbPath := engine.initOptions.StoreFolder + "/" +
 			StoreFilePrefix + "." + strconv.Itoa(shard)
 
@@ -868,7 +870,9 @@ func (engine *Engine) Close() {
 	engine.Flush()
 	if engine.initOptions.UseStore {
 		for _, db := range engine.dbs {
-			db.Close()
+			if err := db.Close(); err != nil {
+				log.Println("Unable to close database: ", err)
+			}
 		}
 	}
 }
diff --git a/store_worker.go b/store_worker.go
index 532d2f6..cd6e9c3 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 
 	"encoding/gob"
+	"log"
 	"sync/atomic"
 
 	"github.com/go-ego/riot/types"
@@ -49,6 +50,7 @@ func (engine *Engine) storeIndexDoc(shard int) {
 		enc := gob.NewEncoder(&buf)
 		err := enc.Encode(request.data)
 		if err != nil {
+			log.Println("Unable to encode document ", request.docId, ": ", err)
 			atomic.AddUint64(&engine.numDocsStored, 1)
 			continue
 		}
@@ -63,7 +65,10 @@ func (engine *Engine) storeIndexDoc(shard int) {
 		// }
 
 		// 将 key-value 写入数据库
-		engine.dbs[shard].Set(b, buf.Bytes())
+		err = engine.dbs[shard].Set(b, buf.Bytes())
+		if err != nil {
+			log.Println("Unable to store document ", request.docId, ": ", err)
+		}
 
 		atomic.AddUint64(&engine.numDocsStored, 1)
 	}
@@ -73,12 +78,15 @@ func (engine *Engine) storeRemoveDoc(docId string, shard uint32) {
 	// 得到 key
 	b := []byte(docId)
 	// 从数据库删除该key
-	engine.dbs[shard].Delete(b)
+	err := engine.dbs[shard].Delete(b)
+	if err != nil {
+		log.Println("Unable to delete document ", docId, ": ", err)
+	}
 }
 
 // storeInit persistent storage init worker
 func (engine *Engine) storeInit(shard int) {
-	engine.dbs[shard].ForEach(func(k, v []byte) error {
+	err := engine.dbs[shard].ForEach(func(k, v []byte) error {
 		key, value := k, v
 		// 得到docID
 		docId := string(key)
@@ -91,8 +99,13 @@ func (engine *Engine) storeInit(shard int) {
 		if err == nil {
 			// 添加索引
 			engine.internalIndexDoc(docId, data, false)
+		} else {
+			log.Println("Unable to decode document ", docId, ": ", err)
 		}
 		return nil
 	})
+	if err != nil {
+		log.Println("Unable to recover shard ", shard, ": ", err)
+	}
 	engine.storeInitChan <- true
 }
-- 
2.43.0


From 60e25b65b8d39b91645651e48f14fdd5d90ff379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 20/30] fix: unexpected result and attribute types do not crash
 a search

---
 engine.go          | 8 ++++++--
 net/grpc/search.go | 8 +++++---
 net/http/http.go   | 6 ++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index 3617c89..5e0d5f0 100755
--- a/engine.go
+++ b/engine.go
@@ -748,9 +748,11 @@ func (engine *Engine) Ranks(request types.SearchReq, rankOpts types.RankOpts,
 // This function is thread safe, return not IDonly
 func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc) {
 	resp := engine.Search(request)
+	// nothing to convert if only counting, or if the engine is IDOnly
+	docs, _ := resp.Docs.(types.ScoredDocs)
 	return types.SearchDoc{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredDocs),
+		Docs:     docs,
 	}
 }
 
@@ -759,9 +761,11 @@ func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc
 func (engine *Engine) SearchID(request types.SearchReq) (output types.SearchID) {
 	// return types.SearchID(engine.Search(request))
 	resp := engine.Search(request)
+	// nothing to convert if only counting, or if the engine is not IDOnly
+	docs, _ := resp.Docs.(types.ScoredIDs)
 	return types.SearchID{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredIDs),
+		Docs:     docs,
 	}
 }
 
diff --git a/net/grpc/search.go b/net/grpc/search.go
index 0b1cb54..28d023a 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -78,11 +78,13 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	docs := com.Search(sea)
 	var textArr []*pb.Text
 
-	scoDocs := docs.Docs.(types.ScoredDocs)
+	scoDocs, _ := docs.Docs.(types.ScoredDocs)
 	for i := 0; i < len(scoDocs); i++ {
+		// documents may be indexed without attributes
+		docAttri, _ := scoDocs[i].Attri.(types.Attri)
 		attri := &pb.Attri{
-			Time: scoDocs[i].Attri.(types.Attri).Time,
-			Ts:   scoDocs[i].Attri.(types.Attri).Ts,
+			Time: docAttri.Time,
+			Ts:   docAttri.Ts,
 		}
 
 		text := &pb.Text{
diff --git a/net/http/http.go b/net/http/http.go
index e192db5..1bfe87d 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -99,14 +99,16 @@ func Search(w http.ResponseWriter, req *http.Request) {
 	}
 	docs := com.Search(sea)
 
-	scoDocs := docs.Docs.(types.ScoredDocs)
+	scoDocs, _ := docs.Docs.(types.ScoredDocs)
 	var textArr []Text
 	for i := 0; i < len(scoDocs); i++ {
+		// documents may be indexed without attributes
+		attri, _ := scoDocs[i].Attri.(types.Attri)
 		text := Text{
 			Id:      scoDocs[i].DocId,
 			Content: scoDocs[i].Content,
 			Score:   scoDocs[i].Scores,
-			Attri:   scoDocs[i].Attri.(types.Attri),
+			Attri:   attri,
 		}
 		textArr = append(textArr, text)
 	}
-- 
2.43.0


From 19091cf7c349d957d6adee99580087c1cb47b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 21/30] fix: register Attri so that documents with it can be
 stored

---
 types/doc_index_data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types/doc_index_data.go b/types/doc_index_data.go
index 46f787b..576923e 100755
--- a/types/doc_index_data.go
+++ b/types/doc_index_data.go
@@ -15,6 +15,13 @@
 
 package types
 
+import "encoding/gob"
+
+func init() {
+	// stored in DocData.Attri, the store encodes it as an interface
+	gob.Register(Attri{})
+}
+
 // DocData type document Index Data struct
 type DocData struct {
 	// 文档全文（必须是 UTF-8 格式），用于生成待索引的关键词
-- 
2.43.0


From 8db816a7d5da070180b816fe75563c1dd4e9e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 22/30] fix: requests without logic or expr do not crash the
 server

---
 net/grpc/etcd.go |  6 +++---
 net/grpc/grpc.go | 16 ++++++++--------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/net/grpc/etcd.go b/net/grpc/etcd.go
index 8ca6d97..08131e4 100644
--- a/net/grpc/etcd.go
+++ b/net/grpc/etcd.go
@@ -101,9 +101,9 @@ func (s *eserver) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply
 	var logic types.Logic
 	if in.Logic != nil {
 		logicExp := types.Expr{
-			Must:   in.Logic.Expr.Must,
-			Should: in.Logic.Expr.Should,
-			NotIn:  in.Logic.Expr.NotIn,
+			Must:   in.Logic.GetExpr().GetMust(),
+			Should: in.Logic.GetExpr().GetShould(),
+			NotIn:  in.Logic.GetExpr().GetNotIn(),
 		}
 
 		logic = types.Logic{
diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index fe86fe3..c3685b3 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -36,13 +36,13 @@ func addDoc(in *pb.DocReq) {
 	tokens := []types.TokenData{}
 	for i := 0; i < len(in.Tokens); i++ {
 		var loc []int
-		inloc := in.Tokens[i].Locations
+		inloc := in.Tokens[i].GetLocations()
 		for l := 0; l < len(inloc); l++ {
 			loc = append(loc, int(inloc[l]))
 		}
 
 		tokens = append(tokens, types.TokenData{
-			Text:      in.Tokens[i].Text,
+			Text:      in.Tokens[i].GetText(),
 			Locations: loc,
 		})
 		// fmt.Println(in.Tokens[i])
@@ -97,15 +97,15 @@ func (s *server) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply,
 
 	// time.Sleep(1 * time.Second)
 	logicExp := types.Expr{
-		Must:   in.Logic.Expr.Must,
-		Should: in.Logic.Expr.Should,
-		NotIn:  in.Logic.Expr.NotIn,
+		Must:   in.GetLogic().GetExpr().GetMust(),
+		Should: in.GetLogic().GetExpr().GetShould(),
+		NotIn:  in.GetLogic().GetExpr().GetNotIn(),
 	}
 
 	logic := types.Logic{
-		Must:   in.Logic.Must,
-		Should: in.Logic.Should,
-		NotIn:  in.Logic.NotIn,
+		Must:   in.GetLogic().GetMust(),
+		Should: in.GetLogic().GetShould(),
+		NotIn:  in.GetLogic().GetNotIn(),
 		Expr:   logicExp,
 	}
 
-- 
2.43.0


From 17ab53d819b8364e7c1a1715721077959169efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 23/30] fix: the network layers share the engine instead of
 copying it

---
 net/grpc/search.go | 2 +-
 net/http/http.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index 28d023a..768c634 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -28,7 +28,7 @@ import (
 var (
 	// config   = com.Conf
 	config   com.Config
-	searcher = com.Searcher
+	searcher = &com.Searcher
 )
 
 // InitEngine init engine
diff --git a/net/http/http.go b/net/http/http.go
index 1bfe87d..b59360b 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -32,7 +32,7 @@ import (
 var (
 	// config   = com.Conf
 	config   com.Config
-	searcher = com.Searcher
+	searcher = &com.Searcher
 )
 
 // Post http post, params is url.Values type
-- 
2.43.0


From d2b57eb76e3a4e60bd5ded02436140310cf646ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 24/30] fix: carry every common field of remote documents

---
 net/grpc/grpc.go   |  8 +++++---
 net/grpc/grpcc.go  | 10 +++++++---
 net/grpc/search.go |  6 ++++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index c3685b3..fd2f4ce 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -56,15 +56,17 @@ func addDoc(in *pb.DocReq) {
 	}
 
 	attri := types.Attri{
-		Time: req.Time,
-		Ts:   req.Ts,
+		Title:  req.Title,
+		Author: req.Author,
+		Time:   req.Time,
+		Ts:     req.Ts,
 	}
 
 	data := types.DocData{
 		Content: in.Content,
 		Attri:   attri,
 		Tokens:  tokens,
-		// Labels: in.Labels,
+		Labels:  in.Labels,
 		// Fields: in.Fields,
 	}
 
diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index df27c13..d5707c7 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -16,6 +16,7 @@ package grpc
 
 import (
 	"log"
+	"strconv"
 	// "os"
 	// "time"
 
@@ -53,9 +54,12 @@ func InitGrpcc(address string, doc Doc) int32 {
 
 	// Contact the server and print out its response.
 	r, err := c.DocInx(context.Background(), &pb.DocReq{
-		Content: doc.Content,
-		Attri:   doc.Attri,
-		Tokens:  doc.Tokens,
+		DocId:       strconv.FormatUint(doc.DocId, 10),
+		Content:     doc.Content,
+		Attri:       doc.Attri,
+		Tokens:      doc.Tokens,
+		Labels:      doc.Labels,
+		ForceUpdate: doc.ForceUpdate,
 	})
 	if err != nil {
 		log.Fatalf("init docinx grpcc could not greet: %v", err)
diff --git a/net/grpc/search.go b/net/grpc/search.go
index 768c634..89715d4 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -83,8 +83,10 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 		// documents may be indexed without attributes
 		docAttri, _ := scoDocs[i].Attri.(types.Attri)
 		attri := &pb.Attri{
-			Time: docAttri.Time,
-			Ts:   docAttri.Ts,
+			Title:  docAttri.Title,
+			Author: docAttri.Author,
+			Time:   docAttri.Time,
+			Ts:     docAttri.Ts,
 		}
 
 		text := &pb.Text{
-- 
2.43.0


From 136b76834c3e31437a41df4380c88de83e4ea17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 25/30] fix: concurrent distributed searches keep their own
 answers, all of them

---
 net/grpc/grpcc.go  |  5 +++--
 net/grpc/search.go | 40 ++++++++++++++++++++++------------------
 net/http/dist.go   | 42 +++++++++++++++++++++++-------------------
 net/http/http.go   |  6 ++----
 4 files changed, 50 insertions(+), 43 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index d5707c7..0f8a3d1 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -75,8 +75,9 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 	// Set up a connection to the server.
 	conn, err := grpc.Dial(address, grpc.WithInsecure())
 	if err != nil {
-		log.Fatalf("did not connect: %v", err)
+		log.Printf("did not connect: %v", err)
 		zlog.Error("did not connect: ", err)
+		return nil, err
 	}
 	defer conn.Close()
 	c := pb.NewGreeterClient(conn)
@@ -106,7 +107,7 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 	})
 
 	if err != nil {
-		log.Fatalf("init searchRpc could not greet: %v", err)
+		log.Printf("init searchRpc could not greet: %v", err)
 		zlog.Error("init searchRpc could not greet: ", err)
 		return nil, err
 	}
diff --git a/net/grpc/search.go b/net/grpc/search.go
index 89715d4..0bfbe29 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -99,7 +99,7 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 
 	sort.Sort(rpcSlice(textArr))
 
-	if len(textArr) > maxOutputs {
+	if maxOutputs > 0 && len(textArr) > maxOutputs {
 		textArr = textArr[0:maxOutputs]
 	}
 
@@ -112,29 +112,25 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	return rep
 }
 
-var (
-	rpcdata []*pb.SearchReply
-	rpcwg   sync.WaitGroup
-)
-
-// WgRpc rpc
-func WgRpc(address string, sea com.SearchArgs) {
+// WgRpc rpc, nil if there is no answer
+func WgRpc(address string, sea com.SearchArgs) *pb.SearchReply {
 	data, err := InitSearchRpc(address, sea)
 
 	if data == nil || err != nil {
 		log.Println("data is null...")
-		defer rpcwg.Done()
-		return
+		return nil
 	}
 
-	rpcdata = append(rpcdata, data)
-
-	defer rpcwg.Done()
+	return data
 }
 
 func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
-	rpcdata = nil
+	// the answers of this request, each peer has its own place
 	var (
+		answers = make([]*pb.SearchReply, len(config.Rpc.DistPort))
+		rpcdata []*pb.SearchReply
+		rpcwg   sync.WaitGroup
+
 		distData   *pb.SearchReply
 		maxOutputs = sea.MaxOutputs
 	)
@@ -147,11 +143,20 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 	for i := 0; i < len(config.Rpc.DistPort); i++ {
 		rpcwg.Add(1)
 		addr := config.Rpc.DistPort[i]
-		go WgRpc(addr, sea)
+		go func(i int, addr string) {
+			defer rpcwg.Done()
+			answers[i] = WgRpc(addr, sea)
+		}(i, addr)
 	}
 
 	rpcwg.Wait()
 
+	for i := 0; i < len(answers); i++ {
+		if answers[i] != nil {
+			rpcdata = append(rpcdata, answers[i])
+		}
+	}
+
 	if len(rpcdata) == 1 {
 		distData = rpcdata[0]
 	} else {
@@ -163,9 +168,8 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 		}
 		sort.Sort(rpcSlice(docs))
 
-		if len(docs) > maxOutputs {
-			end := maxOutputs - 1
-			docs = docs[0:end]
+		if maxOutputs > 0 && len(docs) > maxOutputs {
+			docs = docs[0:maxOutputs]
 		}
 
 		timestamp := time.Now().Unix()
diff --git a/net/http/dist.go b/net/http/dist.go
index 759cfc6..428972a 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -28,32 +28,24 @@ import (
 	"github.com/go-ego/riot/net/com"
 )
 
-var (
-	wgdata [][]byte
-	wg     sync.WaitGroup
-)
-
-// WgPost post
-func WgPost(url string, param url.Values) {
+// WgPost post, nil if there is no answer
+func WgPost(url string, param url.Values) []byte {
 
 	data, err := Post(url, param)
 
 	if string(data) == "" || err != nil {
 		log.Println("data is null ...")
-		defer wg.Done()
-		return
+		return nil
 	}
 
-	wgdata = append(wgdata, data)
-
-	defer wg.Done()
+	return data
 }
 
 // WgDist dist
 func WgDist(w http.ResponseWriter, req *http.Request) {
-	wgdata = nil
 	var distData []byte
 
+	config := com.Conf
 	userid := req.URL.Query().Get("userid")
 	query := req.URL.Query().Get("query")
 	outputOffset := req.URL.Query().Get("outputOffset")
@@ -74,15 +66,28 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	param.Set("maxOutputs", maxOutputs)
 	param.Set("time", atime)
 
-	config = com.Conf
+	// the answers of this request, each peer has its own place
+	var (
+		answers = make([][]byte, len(config.Url))
+		wgdata  [][]byte
+		wg      sync.WaitGroup
+	)
 	for i := 0; i < len(config.Url); i++ {
 		wg.Add(1)
-		url := config.Url[i] + "/search"
-		go WgPost(url, param)
+		go func(i int, url string) {
+			defer wg.Done()
+			answers[i] = WgPost(url, param)
+		}(i, config.Url[i]+"/search")
 	}
 
 	wg.Wait()
 
+	for i := 0; i < len(answers); i++ {
+		if answers[i] != nil {
+			wgdata = append(wgdata, answers[i])
+		}
+	}
+
 	if len(wgdata) == 1 {
 		distData = wgdata[0]
 	} else {
@@ -96,9 +101,8 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 		}
 		sort.Sort(docsSlice(docs))
 
-		if len(docs) > maxOuts {
-			end := maxOuts - 1
-			docs = docs[0:end]
+		if maxOuts > 0 && len(docs) > maxOuts {
+			docs = docs[0:maxOuts]
 		}
 
 		timestamp := time.Now().Unix()
diff --git a/net/http/http.go b/net/http/http.go
index b59360b..e680253 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -30,8 +30,6 @@ import (
 )
 
 var (
-	// config   = com.Conf
-	config   com.Config
 	searcher = &com.Searcher
 )
 
@@ -81,7 +79,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 		atime = req.Form["time"][0]
 	}
 
-	config = com.Conf
+	config := com.Conf
 	log.Println("config: ", config, "; com.Conf: ", com.Conf)
 	if maxOutputs == 0 {
 		outputOffset = config.Engine.OutputOffset
@@ -115,7 +113,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 
 	sort.Sort(docsSlice(textArr))
 
-	if len(textArr) > maxOutputs {
+	if maxOutputs > 0 && len(textArr) > maxOutputs {
 		textArr = textArr[0:maxOutputs]
 	}
 
-- 
2.43.0


From c0a364401fd2f958c97a5baf1aa16af44d713e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 26/30] fix: the name of the server to kill does not reach a
 shell

---
 net/heartb/heart.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index 5f18faf..8a07685 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -100,8 +100,11 @@ func heart(c pb.GreeterClient) {
 }
 
 func restart(dir, bra string) error {
+	return run(dir, exec.Command("/bin/sh", "-c", bra))
+}
+
+func run(dir string, cmd *exec.Cmd) error {
 	rpc = 0
-	cmd := exec.Command("/bin/sh", "-c", bra)
 	cmd.Dir = dir
 	// cmd.Run()
 	err := cmd.Run()
@@ -164,7 +167,8 @@ func KillSer(w http.ResponseWriter, req *http.Request) {
 }
 
 func kill(name string) {
-	err := restart("", "killall -9 "+name)
+	// no shell, the name comes from a request
+	err := run("", exec.Command("killall", "-9", "--", name))
 	if err != nil {
 		log.Println("kill...", err)
 	}
-- 
2.43.0


From f519caf3407e8c7858e522f72b6fb551ded555e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 27/30] fix: count heartbeat failures atomically

---
 net/heartb/heart.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index 8a07685..723e814 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -23,6 +23,7 @@ import (
 	"net/http"
 	"os/exec"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/grpc"
@@ -57,7 +58,7 @@ func Grpcc(addr, dir, bra string) {
 	for {
 		time.Sleep(1 * time.Second)
 		heart(c)
-		if rpc > 3 {
+		if atomic.LoadInt32(&rpc) > 3 {
 			wg.Add(1)
 			go func() {
 				defer wg.Done()
@@ -78,9 +79,8 @@ func heart(c pb.GreeterClient) {
 	})
 
 	if err != nil {
-		rpc++
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if num := atomic.AddInt32(&rpc, 1); num > 3 {
+			log.Println("rpc...", num)
 		}
 
 		log.Printf("could not greet: %v", err)
@@ -91,10 +91,10 @@ func heart(c pb.GreeterClient) {
 	log.Printf("Greeting: %d", r.Result)
 
 	if r.Result != 1 {
-		rpc++
+		num := atomic.AddInt32(&rpc, 1)
 		log.Println("...", r.Result)
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if num > 3 {
+			log.Println("rpc...", num)
 		}
 	}
 }
@@ -104,7 +104,7 @@ func restart(dir, bra string) error {
 }
 
 func run(dir string, cmd *exec.Cmd) error {
-	rpc = 0
+	atomic.StoreInt32(&rpc, 0)
 	cmd.Dir = dir
 	// cmd.Run()
 	err := cmd.Run()
@@ -140,7 +140,7 @@ func Health(w http.ResponseWriter, req *http.Request) {
 	response, _ := json.Marshal(&Json{
 		Code:      0,
 		Timestamp: timestamp,
-		Health:    rpc})
+		Health:    atomic.LoadInt32(&rpc)})
 
 	w.Header().Set("Content-Type", "application/json;charset=utf-8")
 	io.WriteString(w, string(response))
-- 
2.43.0


From 8849dbacbd4d6d9f4ee427d6304bce2c9cb86acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 28/30] fix: do not restrict should and not-in lookups to
 docIds

TestSearchLogic expects documents outside docIds, so take that part of
0563423 back and only skip documents that are not live.
---
 core/indexer.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index ed3050b..451793d 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -669,7 +669,7 @@ func (indexer *Indexer) logicLookup(
 			notInFound := indexer.findInNotInTable(notInTable, baseDocId)
 
 			if mustFound && shouldFound && !notInFound &&
-				indexer.isVisible(baseDocId, docIds) {
+				indexer.isLive(baseDocId) {
 				indexedDoc := types.IndexedDoc{}
 				indexedDoc.DocId = baseDocId
 				if !countDocsOnly {
@@ -685,14 +685,14 @@ func (indexer *Indexer) logicLookup(
 	// 不存在逻辑与检索, 则必须存在逻辑或检索
 	// 这时进行求并集操作
 	if logic.Should == true || len(logic.Expr.Should) > 0 {
-		docs, numDocs = indexer.unionTable(shouldTable, notInTable, docIds, countDocsOnly)
+		docs, numDocs = indexer.unionTable(shouldTable, notInTable, countDocsOnly)
 	} else {
 		uintDocIds := make([]string, 0)
 		// 当前直接返回 Not 逻辑数据
 		for i := 0; i < len(notInTable); i++ {
 			for _, docid := range notInTable[i].docIds {
 				if indexer.findInNotInTable(notInTable, docid) &&
-					indexer.isVisible(docid, docIds) {
+					indexer.isLive(docid) {
 					uintDocIds = append(uintDocIds, docid)
 				}
 			}
@@ -842,15 +842,8 @@ func computeTokenProximity(table []*KeywordIndices,
 	return
 }
 
-// isVisible 判断文档是否存在于索引中 (没有等待删除或等待加入),
-// 且当 docIds 不为 nil 时属于 docIds 指定的文档; 调用者需持有 tableLock
-func (indexer *Indexer) isVisible(docId string, docIds map[string]bool) bool {
-	if docIds != nil {
-		if _, found := docIds[docId]; !found {
-			return false
-		}
-	}
-
+// isLive 判断文档是否存在于索引中 (没有等待删除或等待加入), 调用者需持有 tableLock
+func (indexer *Indexer) isLive(docId string) bool {
 	docState, ok := indexer.tableLock.docsState[docId]
 	return ok && docState == 0
 }
@@ -910,14 +903,14 @@ func (indexer *Indexer) findInNotInTable(table []*KeywordIndices, docId string)
 // 先求差集再求并集， 可以减小内存占用
 // docid 要保序
 func (indexer *Indexer) unionTable(table []*KeywordIndices,
-	notInTable []*KeywordIndices, inDocIds map[string]bool, countDocsOnly bool) (
+	notInTable []*KeywordIndices, countDocsOnly bool) (
 	docs []types.IndexedDoc, numDocs int) {
 	docIds := make([]string, 0)
 	// 求并集
 	for i := 0; i < len(table); i++ {
 		for _, docid := range table[i].docIds {
 			if !indexer.findInNotInTable(notInTable, docid) &&
-				indexer.isVisible(docid, inDocIds) {
+				indexer.isLive(docid) {
 				found := false
 				for _, v := range docIds {
 					if v == docid {
-- 
2.43.0


From 06999e76400196abb0632afa10cdb646d40579e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 29/30] fix: flush reads completed work before requests

Flush compared the request counters with the completion counters, loading the
requests first. A document indexed by another goroutine between the two loads
could complete before the second one, so that its completion stood in for an
earlier document that was still queued, and Flush returned without it.
---
 engine.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/engine.go b/engine.go
index 5e0d5f0..505f6e2 100755
--- a/engine.go
+++ b/engine.go
@@ -826,18 +826,26 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
+		// Read what is done before what was asked for: the completion of a
+		// later request must not stand in for an earlier one.
+		numDone := atomic.LoadUint64(&engine.numDocsIndexed)
+		numRmDone := atomic.LoadUint64(&engine.numDocsRemoved)
+		numRanked := atomic.LoadUint64(&engine.numRankersAdded)
+		numRankRmd := atomic.LoadUint64(&engine.numRankersRemoved)
+		numStored := atomic.LoadUint64(&engine.numDocsStored)
+		numStoreRmd := atomic.LoadUint64(&engine.numStoreRemoved)
+
 		numInx := atomic.LoadUint64(&engine.numIndexingReqs)
-		inxd := numInx == atomic.LoadUint64(&engine.numDocsIndexed)
-		numRm := atomic.LoadUint64(&engine.numRemovingReqs) *
-			uint64(engine.initOptions.NumShards)
-		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
+		inxd := numInx == numDone
+		numRmReqs := atomic.LoadUint64(&engine.numRemovingReqs)
+		numRm := numRmReqs * uint64(engine.initOptions.NumShards)
+		rmd := numRm == numRmDone
 
-		ranked := numInx == atomic.LoadUint64(&engine.numRankersAdded)
-		rankRmd := numRm == atomic.LoadUint64(&engine.numRankersRemoved)
+		ranked := numInx == numRanked
+		rankRmd := numRm == numRankRmd
 
-		nums := numInx == atomic.LoadUint64(&engine.numDocsStored)
-		storeRmd := atomic.LoadUint64(&engine.numRemovingReqs) ==
-			atomic.LoadUint64(&engine.numStoreRemoved)
+		nums := numInx == numStored
+		storeRmd := numRmReqs == numStoreRmd
 		stored := !engine.initOptions.UseStore || (nums && storeRmd)
 
 		if inxd && rmd && ranked && rankRmd && stored {
@@ -851,9 +859,10 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
+		numForced := atomic.LoadUint64(&engine.numDocsForceUpdated)
 		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) *
 			uint64(engine.initOptions.NumShards)
-		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
+		forced := numf == numForced
 
 		if forced {
 			return
-- 
2.43.0


From 06fe4715130b384281f146921ee63e20617c621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 30/30] fix: a document in several not-in lists is returned
 once

---
 core/indexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index 451793d..2234072 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -693,7 +693,16 @@ func (indexer *Indexer) logicLookup(
 			for _, docid := range notInTable[i].docIds {
 				if indexer.findInNotInTable(notInTable, docid) &&
 					indexer.isLive(docid) {
-					uintDocIds = append(uintDocIds, docid)
+					found := false
+					for _, v := range uintDocIds {
+						if v == docid {
+							found = true
+							break
+						}
+					}
+					if !found {
+						uintDocIds = append(uintDocIds, docid)
+					}
 				}
 			}
 		}
-- 
2.43.0

