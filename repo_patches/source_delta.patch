From 9a19428c37b973e7885ec563927a8e596f4fa1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:21 +0000
Subject: [PATCH 01/27] fix: parse the >= comparison operator

The grammar calls it '>=', but the AST builder looked for '=>', so the
operator was dropped and 'a >= b' evaluated to a.
---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 0da0b8a..5b8ba85 100644
--- a/ast.go
+++ b/ast.go
@@ -838,7 +838,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
-- 
2.43.0


From ff5b45e2245c9bc8893f94357f2f389b82246055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:24 +0000
Subject: [PATCH 02/27] fix: date({year,month,day}) is independent of the local
 time zone

Midnight does not exist on some days in some zones (daylight saving
starts at 00:00, e.g. America/Sao_Paulo 2017-10-15), and time.Date then
returns an instant of the previous day.
---
 datefuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datefuncs.go b/datefuncs.go
index 971e7f0..e2305e0 100644
--- a/datefuncs.go
+++ b/datefuncs.go
@@ -82,7 +82,7 @@ func dateFunc(ctx *EvalContext, args []Value) (Value, error) {
 					month = time.Month(m)
 				}
 
-				t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+				t := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
 				return RValue{Value: NewDate(t)}, nil
 			}
 		}
-- 
2.43.0


From 457e1e77dca3f8a16afd5621705859dd734c18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:26 +0000
Subject: [PATCH 03/27] fix: concurrent first calls of parseDate do not race

goment lazily fills global maps without locking on first use, so
evaluating parseDate from several goroutines could crash with
concurrent map writes or misparse dates.
---
 datefuncs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datefuncs.go b/datefuncs.go
index e2305e0..8da1564 100644
--- a/datefuncs.go
+++ b/datefuncs.go
@@ -20,6 +20,10 @@ func init() {
 		MaxArgs:   2,
 		ValueFunc: parseDateFunc,
 	}
+	// goment fills its package level parsing tables when it is first
+	// used, without any locking. Do that here, so concurrent evaluations
+	// only read those tables.
+	goment.New()
 }
 
 var supportedDateFormats = []string{
-- 
2.43.0


From d1db728cb2a32ee03eb20ce315185f5aaf7412ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:24 +0000
Subject: [PATCH 04/27] fix: a later date, local time or local datetime
 compares greater

comparePrimitiveValues returned 'equal' when the first operand was the
later one, so date('2020-1-2') = date('2020-1-1') was true and '>' was
never true.
---
 relationaleval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..b94fd68 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -95,7 +95,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -107,7 +107,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -119,7 +119,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
-- 
2.43.0


From e127bb6637940d45210579d92cb9a7e5404cc6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 05/27] fix: UNION removes duplicate rows

Equal primitive values were never the same (the error check was
inverted), nulls and paths were never the same, the search for an
existing row stopped at the first row of another size, and duplicates
among the rows of the first query were kept.
---
 eval.go      | 10 ++++++++++
 resultset.go |  5 +++--
 value.go     | 14 ++++++++++----
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/eval.go b/eval.go
index b13ff57..b8c4553 100644
--- a/eval.go
+++ b/eval.go
@@ -399,6 +399,16 @@ func (query regularQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, ErrExpectingResultSet
 	}
 	for _, u := range query.unions {
+		if !u.all {
+			// UNION removes all the duplicates, including those among the
+			// rows collected so far
+			unique := *NewResultSet()
+			unique.Cols = resultSet.Cols
+			if err := unique.Union(resultSet, false); err != nil {
+				return nil, err
+			}
+			resultSet = unique
+		}
 		lastContext = ctx.SubContext()
 		contexts = append(contexts, lastContext)
 		newResult, err := u.singleQuery.Evaluate(lastContext)
diff --git a/resultset.go b/resultset.go
index caebf61..1d47122 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,12 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			value, exists := row[i]
+			if !exists || !IsValueSame(r[i], value) {
 				found = false
 				break
 			}
diff --git a/value.go b/value.go
index bbafe07..02fea3b 100644
--- a/value.go
+++ b/value.go
@@ -148,10 +148,13 @@ func ValueOf(in interface{}) Value {
 
 // IsValueSame compares two values and decides if the two are the same
 func IsValueSame(v, v2 Value) bool {
+	if v.Get() == nil || v2.Get() == nil {
+		return v.Get() == nil && v2.Get() == nil
+	}
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
@@ -214,15 +217,18 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1.NumEdges() != val2.NumEdges() {
 			return false
 		}
+		if val1.NumEdges() == 0 {
+			return val1.First() == val2.First()
+		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) {
 				return false
 			}
 		}
-- 
2.43.0


From 035a47a846ff292f94a351c55dc835693c71aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 06/27] fix: cartesian products of no columns or no result sets
 terminate

---
 resultset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resultset.go b/resultset.go
index 1d47122..60d6fbf 100644
--- a/resultset.go
+++ b/resultset.go
@@ -157,7 +157,7 @@ func (r ResultSet) String() string {
 // returns false. The map passed to f is reused, so copy if you need a
 // copy of it.
 func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
-	if len(r.Rows) == 0 {
+	if len(r.Rows) == 0 || len(r.Rows[0]) == 0 {
 		return true
 	}
 	ctr := make([]int, len(r.Rows[0]))
@@ -196,6 +196,9 @@ func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
 func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]Value) bool) ResultSet {
 	ctr := make([]int, len(resultsets))
 	result := *NewResultSet()
+	if len(resultsets) == 0 {
+		return result
+	}
 	for {
 		data := make(map[string]Value)
 		for i := range ctr {
-- 
2.43.0


From 7308642d3c2cde1da70045edca70c8d93b6457c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 07/27] fix: SET is applied to every row, not to combinations
 of columns

SET iterated the cartesian product of the columns of its input, so
MATCH (a)-[]->(b) SET a.x=b.y combined unrelated a's and b's, and it
never terminated for rows without columns.
---
 update.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/update.go b/update.go
index 52b5824..768335e 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,14 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
-	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
-		subctx.SetVars(data)
+	for _, row := range result.Rows {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, row, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
-- 
2.43.0


From 0cc26346a39ba80394fa900709f813b7c0a24935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 08/27] fix: CREATE after MATCH creates its pattern once for
 every row

All rows were processed in one scope, so the variables bound for the
first row were still bound for the next one: it reused the nodes of
the first row, or failed. The rows passed on to the following clauses
now contain the created elements.
---
 update.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/update.go b/update.go
index 768335e..886fb34 100644
--- a/update.go
+++ b/update.go
@@ -198,23 +198,51 @@ func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 	return RValue{Value: result}, nil
 }
 
-func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
+// createRow creates the pattern in the scope of ctx, and returns the
+// variables bound while doing that
+func (c create) createRow(ctx *EvalContext) (map[string]Value, error) {
+	subctx := ctx.SubContext()
 	for _, part := range c.pattern.Parts {
-		if _, _, err := part.Create(ctx); err != nil {
+		if _, _, err := part.Create(subctx); err != nil {
 			return nil, err
 		}
 	}
-	return nil, nil
+	return subctx.GetVarsNearestScope(), nil
+}
+
+func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
+	row, err := c.createRow(ctx)
+	if err != nil {
+		return nil, err
+	}
+	ctx.SetVars(row)
+	result := *NewResultSet()
+	result.Append(row)
+	return RValue{Value: result}, nil
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	ret := *NewResultSet()
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		created, err := c.createRow(subctx)
+		if err != nil {
 			return nil, err
 		}
+		newRow := make(map[string]Value)
+		for k, v := range row {
+			newRow[k] = v
+		}
+		for k, v := range created {
+			newRow[k] = v
+		}
+		ret.Append(newRow)
 	}
-	return RValue{Value: result}, nil
+	if n := len(ret.Rows); n > 0 {
+		ctx.SetVars(ret.Rows[n-1])
+	}
+	return RValue{Value: ret}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
-- 
2.43.0


From fca6ed5558ef425fa57643b7e8c04b0f0d9abd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:52 +0000
Subject: [PATCH 09/27] fix: updating clauses without MATCH work on the rows of
 the previous clause

MERGE (a) MERGE (b) RETURN a,b lost the variables of a newly created
a, returned the rows of the last clause only, and CREATE (a) SET a.x=1
failed.
---
 eval.go   | 11 +++++++++--
 update.go |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index b8c4553..db2e939 100644
--- a/eval.go
+++ b/eval.go
@@ -493,8 +493,15 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: ret}, nil
 	}
 
-	for _, upd := range query.update {
-		v, err := upd.TopLevelUpdate(ctx)
+	for i, upd := range query.update {
+		var v Value
+		var err error
+		if i == 0 {
+			v, err = upd.TopLevelUpdate(ctx)
+		} else {
+			// Following clauses work on the rows of the previous one
+			v, err = upd.Update(ctx, results)
+		}
 		if err != nil {
 			return nil, err
 		}
diff --git a/update.go b/update.go
index 886fb34..a89a3f9 100644
--- a/update.go
+++ b/update.go
@@ -497,6 +497,7 @@ func (m merge) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 			newRow[k] = v
 		}
 		results.Append(newRow)
+		ctx.SetVars(newRow)
 	}
 	return RValue{Value: results}, nil
 }
-- 
2.43.0


From 475407010f665a50fa1ef9cf397e762ed9c95e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:54 +0000
Subject: [PATCH 10/27] fix: SKIP and LIMIT apply to queries without MATCH

---
 eval.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/eval.go b/eval.go
index db2e939..2a71a32 100644
--- a/eval.go
+++ b/eval.go
@@ -513,20 +513,12 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: *NewResultSet()}, nil
 	}
 
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	if len(query.update) == 0 {
+		// No input: project a single row
+		results.Rows = append(results.Rows, nil)
+	}
+	if err := project(results.Rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
-- 
2.43.0


From c341125f44b198e723039a0f5a35c2aad22c5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:24 +0000
Subject: [PATCH 11/27] fix: DELETE deletes every selected element exactly once

A node or relationship that appears in several rows was removed several
times, which corrupts the lists of the graph. Whether DELETE r, a could
delete a depended on the order of rows, and a failing DELETE left the
elements of the earlier rows deleted.
---
 update.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/update.go b/update.go
index a89a3f9..58a6952 100644
--- a/update.go
+++ b/update.go
@@ -125,6 +125,17 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	// The same element may appear in many rows, and it has to be deleted
+	// only once. A node can be deleted if all its edges are deleted, no
+	// matter which rows they are in. So collect everything first.
+	nodes := make([]*lpg.Node, 0)
+	edges := make([]*lpg.Edge, 0)
+	seen := make(map[interface{}]struct{})
+	isNew := func(item interface{}) bool {
+		_, exists := seen[item]
+		seen[item] = struct{}{}
+		return !exists
+	}
 	subctx := ctx.SubContext()
 	for _, row := range result.Rows {
 		subctx.SetVars(row)
@@ -138,21 +149,39 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
-					// Must have detach
-					if !d.detach {
-						return nil, fmt.Errorf("Cannot delete attached node")
-					}
+				if isNew(item) {
+					nodes = append(nodes, item)
 				}
-				item.DetachAndRemove()
 
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					if edge := item.GetEdge(i); isNew(edge) {
+						edges = append(edges, edge)
+					}
 				}
 			}
 		}
 	}
+
+	for _, node := range nodes {
+		for itr := node.GetEdges(lpg.AnyEdge); itr.Next(); {
+			edge := itr.Edge()
+			if !isNew(edge) {
+				continue
+			}
+			// Must have detach
+			if !d.detach {
+				return nil, fmt.Errorf("Cannot delete attached node")
+			}
+			edges = append(edges, edge)
+		}
+	}
+	for _, edge := range edges {
+		edge.Remove()
+	}
+	for _, node := range nodes {
+		node.DetachAndRemove()
+	}
 	return RValue{Value: result}, nil
 }
 
-- 
2.43.0


From 971e4313d80b50ade1c22777129e81504eab5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:59 +0000
Subject: [PATCH 12/27] fix: a MATCH following another MATCH extends its rows

The rows of consecutive MATCH clauses were concatenated, so
MATCH (a) MATCH (b) returned rows without a or b, and the second clause
did not see the variables of the first one.
---
 eval.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 2a71a32..1e9a9f5 100644
--- a/eval.go
+++ b/eval.go
@@ -468,12 +468,27 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	results := *NewResultSet()
 	if len(query.read) > 0 {
+		// Every reading clause extends the rows of the previous ones
+		results.Rows = append(results.Rows, nil)
 		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
-			if err != nil {
-				return nil, err
+			next := *NewResultSet()
+			for _, row := range results.Rows {
+				subctx := ctx.SubContext()
+				subctx.SetVars(row)
+				rs, err := r.GetResults(subctx)
+				if err != nil {
+					return nil, err
+				}
+				for _, newRow := range rs.Rows {
+					for k, v := range row {
+						if _, exists := newRow[k]; !exists {
+							newRow[k] = v
+						}
+					}
+					next.Append(newRow)
+				}
 			}
-			results.Add(rs)
+			results = next
 		}
 
 		for _, upd := range query.update {
-- 
2.43.0


From cb5d88cc40c6b3555679887d747bee29e34c0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:01 +0000
Subject: [PATCH 13/27] fix: OPTIONAL MATCH returns a row with nulls if nothing
 is found

OPTIONAL was ignored.
---
 patterneval.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 356f4d9..16efa1f 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -120,6 +120,20 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	if err := nextPattern(ctx, patterns, 0); err != nil {
 		return ResultSet{}, err
 	}
+	if match.Optional && len(results.Rows) == 0 {
+		// Nothing found: the variables of the pattern are null
+		row := make(map[string]Value)
+		for _, p := range patterns {
+			for symbol := range p.GetSymbolNames().M {
+				if v, err := ctx.GetVar(symbol); err == nil {
+					row[symbol] = v
+				} else {
+					row[symbol] = RValue{}
+				}
+			}
+		}
+		results.Rows = append(results.Rows, row)
+	}
 	return *results, nil
 }
 
-- 
2.43.0


From 4988b6500e48ed5c6b2d7009e789d4daac20eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:34 +0000
Subject: [PATCH 14/27] fix: a failing property filter does not leave a half
 updated node

SET n = {...} and SET n += {...} called the filter between removing and
setting properties, so a panic in the filter lost properties.
---
 update.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/update.go b/update.go
index 58a6952..90af0e9 100644
--- a/update.go
+++ b/update.go
@@ -76,6 +76,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 			if err != nil {
 				return err
 			}
+			for key, val := range sourceProps {
+				sourceProps[key] = ctx.PropertyValueFromNative(key, val)
+			}
 			props := make([]string, 0)
 			v.ForEachProperty(func(key string, _ interface{}) bool {
 				props = append(props, key)
@@ -85,7 +88,7 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
-				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
+				v.SetProperty(key, val)
 			}
 		default:
 			return ErrInvalidAssignment(fmt.Sprintf("%T: %v", v, v))
@@ -99,12 +102,20 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 		if !ok {
 			return ErrInvalidAssignment(fmt.Sprintf("%T: %v", lvalue.Get(), lvalue.Get()))
 		}
+		removed := make([]string, 0)
 		for k, v := range sourceProps {
 			if v == nil {
-				node.RemoveProperty(k)
+				removed = append(removed, k)
+				delete(sourceProps, k)
 				continue
 			}
-			node.SetProperty(k, ctx.PropertyValueFromNative(k, v))
+			sourceProps[k] = ctx.PropertyValueFromNative(k, v)
+		}
+		for _, k := range removed {
+			node.RemoveProperty(k)
+		}
+		for k, v := range sourceProps {
+			node.SetProperty(k, v)
 		}
 	default: // NodeLabels
 		node, ok := lvalue.Get().(*lpg.Node)
-- 
2.43.0


From ba4ef7ac37e3bf6838a4c583b99085448dc6579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:36 +0000
Subject: [PATCH 15/27] fix: evaluating a parsed query does not modify it

Function invocations cached the function they resolved and their
arguments, and additions cached constant results in the parsed query:
concurrent evaluations raced, and a function registered again was not
seen by queries that had been evaluated before.
---
 arithmeticeval.go |  9 -------
 ast.go            |  6 -----
 eval.go           | 61 +++++++++++++++++++----------------------------
 3 files changed, 24 insertions(+), 52 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..6795cf1 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -378,17 +378,11 @@ func addlistlist(a, b []Value) RValue {
 }
 
 func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
 	if len(expr.add) == 1 && len(expr.sub) == 0 {
 		ret, err := expr.add[0].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if ret.IsConst() {
-			expr.constValue = ret
-		}
 		return ret, nil
 	}
 
@@ -501,8 +495,5 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			return RValue{}, err
 		}
 	}
-	if ret.Const {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
diff --git a/ast.go b/ast.go
index 5b8ba85..9fdd7be 100644
--- a/ast.go
+++ b/ast.go
@@ -124,8 +124,6 @@ type partialComparisonExpression struct {
 type addOrSubtractExpression struct {
 	add []Expression
 	sub []Expression
-
-	constValue Value
 }
 
 type multiplyDivideModuloExpression struct {
@@ -340,10 +338,6 @@ type functionInvocation struct {
 	name     []symbolicName
 	distinct bool
 	args     []Expression
-
-	function       *Function
-	constArgs      []Evaluatable
-	constArgValues []Value
 }
 
 type patternComprehension struct {
diff --git a/eval.go b/eval.go
index 1e9a9f5..88e9f15 100644
--- a/eval.go
+++ b/eval.go
@@ -290,50 +290,37 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
-	if f.function == nil {
-		fname := make([]string, 0, len(f.name))
-		for _, x := range f.name {
-			fname = append(fname, string(x))
-		}
-		fn, err := ctx.GetFunction(fname)
-		if err != nil {
-			return nil, err
-		}
-		f.function = &fn
+	// The parsed query can be evaluated many times, and concurrently, so
+	// do not keep anything in it
+	fname := make([]string, 0, len(f.name))
+	for _, x := range f.name {
+		fname = append(fname, string(x))
 	}
-	if len(f.args) < f.function.MinArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", f.function.Name, f.function.MinArgs)}
+	function, err := ctx.GetFunction(fname)
+	if err != nil {
+		return nil, err
 	}
-	if f.function.MaxArgs != -1 && len(f.args) > f.function.MaxArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", f.function.Name, f.function.MaxArgs)}
+	if len(f.args) < function.MinArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", function.Name, function.MinArgs)}
+	}
+	if function.MaxArgs != -1 && len(f.args) > function.MaxArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", function.Name, function.MaxArgs)}
 	}
 
-	args := f.constArgs
-	argValues := f.constArgValues
-	if args == nil {
-		constant := true
-		args = make([]Evaluatable, 0, len(f.args))
-		argValues = make([]Value, 0, len(f.args))
-		for a := range f.args {
-			v, err := f.args[a].Evaluate(ctx)
-			if err != nil {
-				return nil, err
-			}
-			if !v.IsConst() {
-				constant = false
-			}
-			argValues = append(argValues, v)
-			args = append(args, v)
-		}
-		if constant {
-			f.constArgs = args
-			f.constArgValues = argValues
+	args := make([]Evaluatable, 0, len(f.args))
+	argValues := make([]Value, 0, len(f.args))
+	for a := range f.args {
+		v, err := f.args[a].Evaluate(ctx)
+		if err != nil {
+			return nil, err
 		}
+		argValues = append(argValues, v)
+		args = append(args, v)
 	}
-	if f.function.ValueFunc != nil {
-		return f.function.ValueFunc(ctx, argValues)
+	if function.ValueFunc != nil {
+		return function.ValueFunc(ctx, argValues)
 	}
-	return f.function.Func(ctx, args)
+	return function.Func(ctx, args)
 }
 
 func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
-- 
2.43.0


From 19cb43ad1e34c47a9c4c5b9abe1cbb6d5c136b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:38 +0000
Subject: [PATCH 16/27] fix: the power operator does not panic

---
 arithmeticeval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 6795cf1..f4fd1ec 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,7 +53,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 93abc61fced2a6e3bd5d22fe30cafa135b8a077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:40 +0000
Subject: [PATCH 17/27] fix: list concatenation returns the list

---
 arithmeticeval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index f4fd1ec..f645a64 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -374,6 +374,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
-- 
2.43.0


From a44e7be5e4177598e411d9d8509269d5a6090119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:36 +0000
Subject: [PATCH 18/27] fix: arithmetic on constant values is not cached in the
 parsed query

Elements of a list passed as a parameter can be marked constant, so
RETURN $l[0]*$l[1] kept returning the result for the first parameter
value when evaluated again.
---
 arithmeticeval.go | 22 ----------------------
 ast.go            | 10 ----------
 literal.go        | 12 ------------
 3 files changed, 44 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index f645a64..62b4bea 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -6,10 +6,6 @@ import (
 )
 
 func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
-
 	value, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
@@ -31,16 +27,10 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 	} else {
 		return ret, ErrInvalidUnaryOperation
 	}
-	if ret.IsConst() {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
 
 func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
 	val, err := expr.parts[0].Evaluate(ctx)
 	if err != nil {
 		return nil, err
@@ -79,9 +69,6 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 		ret.Const = ret.Const && val.IsConst()
 	}
-	if ret.Const {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
 
@@ -196,17 +183,11 @@ func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
 }
 
 func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	if expr.constValue != nil {
-		return expr.constValue, nil
-	}
 	if len(expr.parts) == 1 {
 		v, err := expr.parts[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if v.IsConst() {
-			expr.constValue = v
-		}
 		return v, err
 	}
 	// Multiple parts, cannot be an lvalue
@@ -266,9 +247,6 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 	if err != nil {
 		return nil, err
 	}
-	if ret.Const {
-		expr.constValue = &ret
-	}
 	return ret, nil
 }
 
diff --git a/ast.go b/ast.go
index 9fdd7be..5ae4cd6 100644
--- a/ast.go
+++ b/ast.go
@@ -128,8 +128,6 @@ type addOrSubtractExpression struct {
 
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
-
-	constValue Value
 }
 
 type multiplyDivideModuloExpressionPart struct {
@@ -140,15 +138,11 @@ type multiplyDivideModuloExpressionPart struct {
 
 type powerOfExpression struct {
 	parts []Evaluatable
-
-	constValue Value
 }
 
 type unaryAddOrSubtractExpression struct {
 	neg  bool
 	expr stringListNullOperatorExpression
-
-	constValue Value
 }
 
 type stringListNullOperatorExpression struct {
@@ -370,14 +364,10 @@ type rangeLiteral struct {
 
 type listLiteral struct {
 	values []Expression
-
-	constValue Value
 }
 
 type mapLiteral struct {
 	keyValues []mapKeyValue
-
-	constValue Value
 }
 
 type mapKeyValue struct {
diff --git a/literal.go b/literal.go
index 8d03a98..475275d 100644
--- a/literal.go
+++ b/literal.go
@@ -39,9 +39,6 @@ func (literal nullLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (lst *listLiteral) Evaluate(ctx *EvalContext) (Value, error) {
-	if lst.constValue != nil {
-		return lst.constValue, nil
-	}
 	ret := make([]Value, 0, len(lst.values))
 	var val RValue
 	for i := range lst.values {
@@ -57,16 +54,10 @@ func (lst *listLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 		ret = append(ret, v)
 	}
 	val.Value = ret
-	if val.IsConst() {
-		lst.constValue = val
-	}
 	return val, nil
 }
 
 func (mp *mapLiteral) Evaluate(ctx *EvalContext) (Value, error) {
-	if mp.constValue != nil {
-		return mp.constValue, nil
-	}
 	var val RValue
 	ret := make(map[string]Value)
 	for i := range mp.keyValues {
@@ -86,9 +77,6 @@ func (mp *mapLiteral) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	val.Value = ret
-	if val.IsConst() {
-		mp.constValue = val
-	}
 	return val, nil
 }
 
-- 
2.43.0


From e6a1a5c14583c9ef28c01af37945053fee365a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 19/27] fix: SKIP and LIMIT use the value of their expression

ValueAsInt and ValueAsString returned the nil error of the expression
they are called with, and no value.
---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 02fea3b..032ef22 100644
--- a/value.go
+++ b/value.go
@@ -260,7 +260,7 @@ func (v RValue) String() string {
 // ValueAsInt returns the int value. If value is not int, returns
 // ErrIntValueRequired. If an err argument is given, that error is returned.
 func ValueAsInt(v Value, err ...error) (int, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return 0, err[0]
 	}
 	i, ok := v.Get().(int)
@@ -273,7 +273,7 @@ func ValueAsInt(v Value, err ...error) (int, error) {
 // ValueAsString returns the string value. If value is not string,
 // rReturns ErrStringValueRequired. If an err argument is given, that error is returned.
 func ValueAsString(v Value, err ...error) (string, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return "", err[0]
 	}
 	s, ok := v.Get().(string)
-- 
2.43.0


From f9cb1a5504eed585e86422091093be83ec90685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:56 +0000
Subject: [PATCH 20/27] fix: an error in a multiplication is not overwritten by
 the next factor

---
 arithmeticeval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 62b4bea..4851f11 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -242,11 +242,11 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			default:
 				err = ErrInvalidMultiplicativeOperation
 			}
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
-	if err != nil {
-		return nil, err
-	}
 	return ret, nil
 }
 
-- 
2.43.0


From a263f2cd92f4752ef926cbf087c15b6ebe9421fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 21/27] fix: a bound relationship variable constrains the
 pattern

---
 patterneval.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 16efa1f..4ee2e9a 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -93,6 +93,9 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 			return err
 		}
 		for _, row := range results.result.Rows {
+			if !agreesWithBoundVariables(prevContext, row) {
+				continue
+			}
 			for k, v := range row {
 				newContext.SetVar(k, v)
 			}
@@ -137,6 +140,19 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	return *results, nil
 }
 
+// agreesWithBoundVariables returns false if the row has a variable
+// that is already bound to another value in the context. The pattern
+// search does not constrain relationships by the variables.
+func agreesWithBoundVariables(ctx *EvalContext, row map[string]Value) bool {
+	for k, v := range row {
+		bound, err := ctx.GetVar(k)
+		if err == nil && !IsValueSame(bound, v) {
+			return false
+		}
+	}
+	return true
+}
+
 // BuildPatternSymbols copies all the symbols referenced in the
 // pattern from the context, and puts them in a map.
 func BuildPatternSymbols(ctx *EvalContext, pattern lpg.Pattern) (map[string]*lpg.PatternSymbol, error) {
-- 
2.43.0


From 1678e71316ab1226bd71ea0534ebc77eb7e1d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 22/27] fix: IN works with lists

IN returned an error for every list, and accepted everything else.
---
 eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 88e9f15..7942db3 100644
--- a/eval.go
+++ b/eval.go
@@ -123,10 +123,11 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			return nil, err
 		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
+		if !ok {
 			if listValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
 		}
 		if inputValue.Get() == nil {
 			return RValue{}, nil
-- 
2.43.0


From 055d2ba94f89028439de416ae44456df1dd5d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:48 +0000
Subject: [PATCH 23/27] fix: range() ends when the next value overflows

range(0, 9223372036854775807, 4611686018427387904) wrapped around and
went on forever.
---
 functions.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/functions.go b/functions.go
index c903aca..c474555 100644
--- a/functions.go
+++ b/functions.go
@@ -2,6 +2,7 @@ package opencypher
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/cloudprivacylabs/lpg/v2"
@@ -86,10 +87,16 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if end > start {
 		for at := start; at < end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at > math.MaxInt-skip {
+				break
+			}
 		}
 	} else {
 		for at := start; at > end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at < math.MinInt-skip {
+				break
+			}
 		}
 	}
 	return RValue{Value: arr}, nil
-- 
2.43.0


From b060da6350aa4bce0030ca8260dd877789bd2f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 24/27] fix: <--> matches relationships in both directions

It matched the incoming ones only.
---
 patterneval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 4ee2e9a..384f821 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -251,7 +251,7 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else {
 		ret.Min, ret.Max = 1, 1
 	}
-	if !rp.toRight && !rp.toLeft {
+	if rp.toRight == rp.toLeft {
 		ret.Undirected = true
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
-- 
2.43.0


From 6abcfe3f65377143e91f9df228e460b9fb6e2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:45 +0000
Subject: [PATCH 25/27] fix: null is not stored as a property value

CREATE and SET n = {...} stored properties with the value null, which
does not exist in openCypher: such a property is absent.
---
 update.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/update.go b/update.go
index 90af0e9..fb9c981 100644
--- a/update.go
+++ b/update.go
@@ -77,6 +77,10 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				return err
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					delete(sourceProps, key)
+					continue
+				}
 				sourceProps[key] = ctx.PropertyValueFromNative(key, val)
 			}
 			props := make([]string, 0)
@@ -326,6 +330,10 @@ func (np nodePattern) createNode(ctx *EvalContext) (*lpg.Node, error) {
 		return nil, err
 	}
 	for k, v := range properties {
+		if v == nil {
+			delete(properties, k)
+			continue
+		}
 		properties[k] = ctx.PropertyValueFromNative(k, v)
 	}
 	node := ctx.graph.NewNode(labels.Slice(), properties)
@@ -387,6 +395,10 @@ func (rel relationshipPattern) Create(ctx *EvalContext, from, to *lpg.Node) (lpg
 		return lpg.PathElement{}, err
 	}
 	for k, v := range properties {
+		if v == nil {
+			delete(properties, k)
+			continue
+		}
 		properties[k] = ctx.PropertyValueFromNative(k, v)
 	}
 	path := &lpg.Path{}
-- 
2.43.0


From 77da2df72a623e61f5f8e6f99a30568c3e4c4c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 26/27] fix: SET of an unknown variable returns the error of
 the variable

---
 update.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/update.go b/update.go
index fb9c981..822648f 100644
--- a/update.go
+++ b/update.go
@@ -46,6 +46,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	}
 
 	value, err := s.variable.Evaluate(ctx)
+	if err != nil {
+		return err
+	}
 	lvalue, ok := value.(LValue)
 	if !ok {
 		return ErrNotAnLValue
-- 
2.43.0


From 8b43131ffa4075b76f39d117513fdf7d19c4d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 27/27] fix: SET and REMOVE ignore null

A row in which an optional match found nothing made SET and REMOVE of a
property fail. As REMOVE of a label did already, leave such rows alone.
---
 eval.go   | 6 ++++++
 update.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/eval.go b/eval.go
index 7942db3..0c56e2a 100644
--- a/eval.go
+++ b/eval.go
@@ -567,6 +567,12 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 		value := val.Get()
 		switch parent := value.(type) {
+		case nil:
+			// The properties of null are null, and setting them does nothing
+			val = LValue{
+				getter: func() interface{} { return nil },
+				setter: func(interface{}) {},
+			}
 		case *lpg.Node:
 			val = LValue{
 				getter: func() interface{} {
diff --git a/update.go b/update.go
index 822648f..48aa94f 100644
--- a/update.go
+++ b/update.go
@@ -53,6 +53,10 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	if !ok {
 		return ErrNotAnLValue
 	}
+	if lvalue.Get() == nil {
+		// Nothing to change, an optional match did not find it
+		return nil
+	}
 
 	getSourceProps := func() (map[string]interface{}, error) {
 		sourceProps := make(map[string]interface{})
-- 
2.43.0

