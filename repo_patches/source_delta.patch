From ab7c2cc9ac01f5c47185d03e317f9e6c1c8a5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 01/27] fix: escape double quotes in quoted identifiers

quote() used Go string quoting, which escapes with backslashes: an identifier
holding a double quote ended early in SQL, and backslashes, newlines and
non-printable characters named another column. SQL doubles the quote and keeps
every other character as it is.
---
 stmt/stmt.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stmt/stmt.go b/stmt/stmt.go
index bf81364..b172a94 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -1,7 +1,6 @@
 package stmt
 
 import (
-	"strconv"
 	"strings"
 
 	"github.com/ulule/loukoum/v3/types"
@@ -20,7 +19,7 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, strconv.Quote(split[i]))
+		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
 	}
 	return strings.Join(quoted, ".")
 }
-- 
2.43.0


From cc5019127da07b4eda2b4d65c2daca5d2c2e302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 02/27] fix: render the * wildcard of a column unquoted

Select() without columns defaults to "*", but the star was quoted and asked
for a column named "*" instead of all the columns. The same goes for "t.*".
---
 stmt/column.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stmt/column.go b/stmt/column.go
index 4ad78a8..c5fb4c1 100644
--- a/stmt/column.go
+++ b/stmt/column.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -52,7 +54,15 @@ func (column Column) Desc() Order {
 
 // Write exposes statement as a SQL query.
 func (column Column) Write(ctx types.Context) {
-	ctx.Write(quote(column.Name))
+	switch {
+	case column.Name == "*":
+		ctx.Write("*")
+	case strings.HasSuffix(column.Name, ".*"):
+		ctx.Write(quote(strings.TrimSuffix(column.Name, ".*")))
+		ctx.Write(".*")
+	default:
+		ctx.Write(quote(column.Name))
+	}
 	if column.Alias != "" {
 		ctx.Write(" ")
 		ctx.Write(token.As.String())
-- 
2.43.0


From 62bdbaa645bb5f8e7168fa5dfa5dd7d0e246cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 03/27] fix: do not share memory between copies of a builder

---
 builder/builder.go |  5 +++--
 builder/select.go  | 26 ++++++++++++--------------
 builder/update.go  |  9 +++------
 stmt/set.go        | 12 ++++++++++++
 4 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index e449873..f991898 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -80,7 +80,7 @@ func ToColumns(values []interface{}) []stmt.Column { // nolint: gocyclo
 					panic("loukoum: given column is undefined")
 				}
 			}
-			return array
+			return append([]stmt.Column{}, array...)
 		case []string:
 			list := make([]interface{}, len(array))
 			for i := range array {
@@ -122,7 +122,7 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
-			return array
+			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
@@ -322,6 +322,7 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 
 // MergeSet merges new pairs into existing ones (last write wins).
 func MergeSet(set stmt.Set, args []interface{}) stmt.Set {
+	set.Pairs = set.Pairs.Clone()
 	for i := range args {
 		switch value := args[i].(type) {
 		case string, stmt.Column:
diff --git a/builder/select.go b/builder/select.go
index 276e0c1..9ab1418 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -93,8 +93,13 @@ func (b Select) join1(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
+	return b.addJoin(join)
+}
 
+// addJoin appends a join clause, without sharing memory with other copies of the builder.
+func (b Select) addJoin(join stmt.Join) Select {
+	joins := b.query.Joins
+	b.query.Joins = append(joins[:len(joins):len(joins)], join)
 	return b
 }
 
@@ -104,9 +109,7 @@ func (b Select) join2(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.addJoin(join)
 }
 
 func (b Select) join3(args []interface{}) Select {
@@ -123,19 +126,13 @@ func (b Select) join3(args []interface{}) Select {
 		panic("loukoum: given join clause is undefined")
 	}
 
-	b.query.Joins = append(b.query.Joins, join)
-
-	return b
+	return b.addJoin(join)
 }
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	queries := b.query.With.Queries
+	b.query.With.Queries = append(queries[:len(queries):len(queries)], args...)
 	return b
 }
 
@@ -197,7 +194,8 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
-	b.query.OrderBy.Orders = append(b.query.OrderBy.Orders, orders...)
+	list := b.query.OrderBy.Orders
+	b.query.OrderBy.Orders = append(list[:len(list):len(list)], orders...)
 	return b
 }
 
diff --git a/builder/update.go b/builder/update.go
index f95bfe6..a480291 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -44,6 +44,7 @@ func (b Update) Using(args ...interface{}) Update {
 		panic("loukoum: using clause requires a column or an expression")
 	}
 
+	b.query.Set.Pairs = b.query.Set.Pairs.Clone()
 	for i := range args {
 		b.query.Set.Pairs.Use(stmt.NewExpression(args[i]))
 	}
@@ -53,12 +54,8 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
-	if b.query.With.IsEmpty() {
-		b.query.With = stmt.NewWith(args)
-		return b
-	}
-
-	b.query.With.Queries = append(b.query.With.Queries, args...)
+	queries := b.query.With.Queries
+	b.query.With.Queries = append(queries[:len(queries):len(queries)], args...)
 	return b
 }
 
diff --git a/stmt/set.go b/stmt/set.go
index 48f6a6a..3a141d7 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -64,6 +64,18 @@ func NewPairContainer() PairContainer {
 	}
 }
 
+// Clone returns a copy that can be modified without altering the original.
+func (pairs PairContainer) Clone() PairContainer {
+	clone := NewPairContainer()
+	clone.Mode = pairs.Mode
+	clone.Columns = append(clone.Columns, pairs.Columns...)
+	clone.Expressions = append(clone.Expressions, pairs.Expressions...)
+	for column, expression := range pairs.Map {
+		clone.Map[column] = expression
+	}
+	return clone
+}
+
 // Add appends given column and expression.
 // It will configure Set's syntax to key-value (a.k.a "standard", "default" or "associative").
 //
-- 
2.43.0


From 967e3f6dd8d5e4e24514c9c5d82be00ebd9e4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 04/27] fix: sort a copy of the SET columns, by name then alias

---
 stmt/set.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/stmt/set.go b/stmt/set.go
index 3a141d7..ec73722 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -140,16 +140,20 @@ func (pairs PairContainer) Values() ([]Column, []Expression) {
 		return pairs.Columns, pairs.Expressions
 	}
 
-	sort.Slice(pairs.Columns, func(i, j int) bool {
-		return pairs.Columns[i].Name < pairs.Columns[j].Name ||
-			pairs.Columns[i].Alias < pairs.Columns[j].Alias
+	// Sort a copy: a builder may be rendered by several goroutines.
+	list := append([]Column{}, pairs.Columns...)
+	sort.Slice(list, func(i, j int) bool {
+		if list[i].Name != list[j].Name {
+			return list[i].Name < list[j].Name
+		}
+		return list[i].Alias < list[j].Alias
 	})
 
-	columns := make([]Column, 0, len(pairs.Columns))
-	expressions := make([]Expression, 0, len(pairs.Columns))
+	columns := make([]Column, 0, len(list))
+	expressions := make([]Expression, 0, len(list))
 
-	for i := range pairs.Columns {
-		column := pairs.Columns[i]
+	for i := range list {
+		column := list[i]
 		expression, ok := pairs.Map[column]
 		if !ok {
 			panic("loukoum: invalid state for stmt.PairContainer")
-- 
2.43.0


From 036c5308d347ee600dd875e9062894d8a33ec284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 05/27] fix: reject a nil or empty condition instead of
 dropping the clause

---
 stmt/having.go |  3 +++
 stmt/where.go  | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/stmt/having.go b/stmt/having.go
index 4adad71..2e1d014 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -13,6 +13,7 @@ type Having struct {
 
 // NewHaving returns a new Having instance.
 func NewHaving(expression Expression) Having {
+	requireCondition(expression)
 	return Having{
 		Condition: expression,
 	}
@@ -39,6 +40,7 @@ func (having Having) And(right Expression) Having {
 	if having.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
+	requireCondition(right)
 
 	left := having.Condition
 	operator := NewAndOperator()
@@ -51,6 +53,7 @@ func (having Having) Or(right Expression) Having {
 	if having.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
+	requireCondition(right)
 
 	left := having.Condition
 	operator := NewOrOperator()
diff --git a/stmt/where.go b/stmt/where.go
index 8757fe3..a9ec702 100644
--- a/stmt/where.go
+++ b/stmt/where.go
@@ -12,11 +12,19 @@ type Where struct {
 
 // NewWhere returns a new Where instance.
 func NewWhere(expression Expression) Where {
+	requireCondition(expression)
 	return Where{
 		Condition: NewWrapper(expression),
 	}
 }
 
+// requireCondition panics if given condition is undefined: a clause without it would be silently discarded.
+func requireCondition(condition Expression) {
+	if condition == nil || condition.IsEmpty() {
+		panic("loukoum: condition must be not nil and not empty")
+	}
+}
+
 // Write exposes statement as a SQL query.
 func (where Where) Write(ctx types.Context) {
 	if where.IsEmpty() {
@@ -38,6 +46,7 @@ func (where Where) And(right Expression) Where {
 	if where.IsEmpty() {
 		panic("loukoum: two conditions are required for AND statement")
 	}
+	requireCondition(right)
 
 	left := where.Condition
 	operator := NewAndOperator()
@@ -50,6 +59,7 @@ func (where Where) Or(right Expression) Where {
 	if where.IsEmpty() {
 		panic("loukoum: two conditions are required for OR statement")
 	}
+	requireCondition(right)
 
 	left := where.Condition
 	operator := NewOrOperator()
-- 
2.43.0


From e2692f13fdcf16b9803fbd097e82a8134d1d8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 06/27] fix: reject an identifier that is neither a name nor a
 raw fragment

---
 stmt/expression.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 429b834..6e00644 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -78,12 +78,23 @@ func (identifier Identifier) Write(ctx types.Context) {
 		ctx.Write(quote(t))
 	case Raw:
 		t.Write(ctx)
+	default:
+		panic(fmt.Sprintf("loukoum: cannot use %T as identifier", identifier.Identifier))
 	}
 }
 
 // IsEmpty returns true if statement is undefined.
 func (identifier Identifier) IsEmpty() bool {
-	return identifier.Identifier == ""
+	switch t := identifier.Identifier.(type) {
+	case nil:
+		return true
+	case string:
+		return t == ""
+	case Raw:
+		return t.IsEmpty()
+	default:
+		return false
+	}
 }
 
 // Contains performs a "contains" comparison.
-- 
2.43.0


From efc3202ff43eab44159a994ffb28a178cc9affba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 07/27] fix: reject join strings that cannot be represented
 entirely

---
 parser/join.go | 218 +++++++++++++++++++++++--------------------------
 1 file changed, 104 insertions(+), 114 deletions(-)

diff --git a/parser/join.go b/parser/join.go
index 894cb55..6ff22f5 100644
--- a/parser/join.go
+++ b/parser/join.go
@@ -16,7 +16,7 @@ import (
 var ErrJoinInvalidCondition = fmt.Errorf("join condition is invalid")
 
 // ParseJoin will try to parse given subquery as a join statement.
-func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
+func ParseJoin(subquery string) (stmt.Join, error) {
 	lexer := lexer.New(strings.NewReader(subquery))
 	it := lexer.Iterator()
 
@@ -24,123 +24,113 @@ func ParseJoin(subquery string) (stmt.Join, error) { // nolint: gocyclo
 		Type: types.InnerJoin,
 	}
 
-	for it.HasNext() {
-		e := it.Next()
-
-		switch e.Type {
-		// Parse join type
-		case token.Join:
-			continue
-		case token.Inner:
-			if it.Is(token.Join) {
-				it.Next()
-				join.Type = types.InnerJoin
-				continue
-			}
-		case token.Left:
-			if it.Is(token.Join) {
-				it.Next()
-				join.Type = types.LeftJoin
-				continue
-			}
-		case token.Right:
-			if it.Is(token.Join) {
-				it.Next()
-				join.Type = types.RightJoin
-				continue
-			}
-		case token.Literal:
-			// Parse join table
-			if it.Is(token.On) {
-				it.Next()
-				join.Table = stmt.NewTable(e.Value)
-				continue
-			}
-
-			// Parse join condition
-			if it.Is(token.Equals) {
-
-				// Left condition
-				left := stmt.NewColumn(e.Value)
-
-				// Check that we have a right condition
-				e = it.Next()
-				if e.Type != token.Equals || !it.Is(token.Literal) {
-					err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-					return stmt.Join{}, err
-				}
-
-				// Right condition
-				e = it.Next()
-				right := stmt.NewColumn(e.Value)
-
-				join.Condition = stmt.NewOnClause(left, right)
-
-				for it.Is(token.And) || it.Is(token.Or) {
-					// We have an AND operator
-					if it.Is(token.And) {
-						e := it.Next()
-						if e.Type != token.And || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Left condition
-						e = it.Next()
-						left := stmt.NewColumn(e.Value)
-
-						// Check that we have a right condition
-						e = it.Next()
-						if e.Type != token.Equals || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Right condition
-						e = it.Next()
-						right := stmt.NewColumn(e.Value)
-
-						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.And), stmt.NewOnClause(left, right)) //nolint:lll
-					}
-					// We have an OR operator
-					if it.Is(token.Or) {
-						e := it.Next()
-						if e.Type != token.Or || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Left condition
-						e = it.Next()
-						left := stmt.NewColumn(e.Value)
-
-						// Check that we have a right condition
-						e = it.Next()
-						if e.Type != token.Equals || !it.Is(token.Literal) {
-							err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
-							return stmt.Join{}, err
-						}
-
-						// Right condition
-						e = it.Next()
-						right := stmt.NewColumn(e.Value)
-
-						join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(types.Or), stmt.NewOnClause(left, right)) //nolint:lll
-					}
-				}
-
-				continue
-			}
-
-		case token.On, token.LParen, token.RParen:
-			continue
+	ok := parseJoin(it, &join)
+	if !ok {
+		err := errors.Wrapf(ErrJoinInvalidCondition, "given query cannot be parsed: %s", subquery)
+		return stmt.Join{}, err
+	}
+
+	return join, nil
+}
+
+// parseJoin parses the whole join clause: [type] [table] [ON] condition [;]
+// It returns false if something cannot be represented by given join.
+func parseJoin(it *lexer.Iteratee, join *stmt.Join) bool {
+	// Parse join type
+	switch {
+	case accept(it, token.Inner):
+		if !it.Is(token.Join) {
+			return false
+		}
+	case accept(it, token.Left):
+		if !it.Is(token.Join) {
+			return false
+		}
+		join.Type = types.LeftJoin
+	case accept(it, token.Right):
+		if !it.Is(token.Join) {
+			return false
+		}
+		join.Type = types.RightJoin
+	}
+	accept(it, token.Join)
+
+	// Parse join table
+	parens := acceptAll(it, token.LParen)
+	literal := ""
+	if it.Is(token.Literal) {
+		literal = it.Next().Value
+		if parens == 0 && it.Is(token.On) {
+			join.Table = stmt.NewTable(literal)
+			literal = ""
 		}
+	}
 
-		// Ignore invalid token and stop iterating.
-		break
+	// Parse join condition
+	if literal == "" {
+		accept(it, token.On)
+		parens += acceptAll(it, token.LParen)
+		if !it.Is(token.Literal) {
+			return false
+		}
+		literal = it.Next().Value
 	}
 
-	return join, nil
+	condition, ok := parseJoinCondition(it, literal)
+	if !ok {
+		return false
+	}
+	join.Condition = condition
+
+	for it.Is(token.And) || it.Is(token.Or) {
+		operator := types.And
+		if it.Next().Type == token.Or {
+			operator = types.Or
+		}
+		if !it.Is(token.Literal) {
+			return false
+		}
+
+		condition, ok := parseJoinCondition(it, it.Next().Value)
+		if !ok {
+			return false
+		}
+
+		join.Condition = stmt.NewInfixExpression(join.Condition, stmt.NewLogicalOperator(operator), condition)
+	}
+
+	if acceptAll(it, token.RParen) != parens {
+		return false
+	}
+
+	acceptAll(it, token.Semicolon)
+	return !it.HasNext()
+}
+
+// parseJoinCondition parses what follows the left column of a condition.
+func parseJoinCondition(it *lexer.Iteratee, left string) (stmt.OnClause, bool) {
+	if !accept(it, token.Equals) || !it.Is(token.Literal) {
+		return stmt.OnClause{}, false
+	}
+	return stmt.NewOnClause(stmt.NewColumn(left), stmt.NewColumn(it.Next().Value)), true
+}
+
+// accept consumes the next token if it has given type.
+func accept(it *lexer.Iteratee, kind token.Type) bool {
+	ok := it.Is(kind)
+	if ok {
+		it.Next()
+	}
+	return ok
+}
+
+// acceptAll consumes the next tokens as long as they have given type and returns how many there were.
+func acceptAll(it *lexer.Iteratee, kind token.Type) int {
+	count := 0
+	for accept(it, kind) {
+		count++
+	}
+	return count
 }
 
 // MustParseJoin will execute ParseJoin and panic on error.
-- 
2.43.0


From 27e24cf95a61e686a127faf17fb988357dd7ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 08/27] fix: reject a join without condition and a join
 condition naming another table

---
 builder/select.go | 3 +++
 stmt/join.go      | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/builder/select.go b/builder/select.go
index 9ab1418..fd9c48f 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -293,6 +293,9 @@ func handleSelectJoin(args []interface{}) stmt.Join {
 	switch value := args[1].(type) {
 	case string:
 		join = parser.MustParseJoin(value)
+		if !join.Table.IsEmpty() {
+			panic("loukoum: join clause has table already defined")
+		}
 	case stmt.OnClause:
 		join = stmt.NewInnerJoin(table, value)
 	case stmt.InfixOnExpression:
diff --git a/stmt/join.go b/stmt/join.go
index 397bec5..aeca110 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -49,7 +49,8 @@ func (join Join) Write(ctx types.Context) {
 
 // IsEmpty returns true if statement is undefined.
 func (join Join) IsEmpty() bool {
-	return join.Type == "" || join.Table.IsEmpty() || join.Condition.IsEmpty()
+	return join.Type == "" || join.Table.IsEmpty() ||
+		join.Condition == nil || join.Condition.IsEmpty()
 }
 
 // Ensure that Join is a Statement
-- 
2.43.0


From c46f78eae267013fb4cc91bbbc0eb1c35236ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 09/27] fix: guard DISTINCT ON, suffix and prefix with their
 own clause

---
 builder/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/select.go b/builder/select.go
index fd9c48f..4cd3be1 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -20,7 +20,7 @@ func NewSelect() Select {
 
 // DistinctOn adds a DISTINCT ON clause to the query.
 func (b Select) DistinctOn(args ...interface{}) Select {
-	if !b.query.GroupBy.IsEmpty() {
+	if !b.query.DistinctOn.IsEmpty() {
 		panic("loukoum: select builder has distinct on clause already defined")
 	}
 
@@ -221,7 +221,7 @@ func (b Select) Offset(value interface{}) Select {
 
 // Suffix adds given clauses as suffixes.
 func (b Select) Suffix(suffix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Suffix.IsEmpty() {
 		panic("loukoum: select builder has suffixes clauses already defined")
 	}
 
@@ -232,7 +232,7 @@ func (b Select) Suffix(suffix interface{}) Select {
 
 // Prefix adds given clauses as prefixes.
 func (b Select) Prefix(prefix interface{}) Select {
-	if !b.query.Offset.IsEmpty() {
+	if !b.query.Prefix.IsEmpty() {
 		panic("loukoum: select builder has prefixes clauses already defined")
 	}
 
-- 
2.43.0


From e4445bf7d8a66be5110d517b1365b8dcaddac96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 10/27] fix: accept a from clause as a whole and reject an
 empty table in it

---
 builder/builder.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index f991898..83a7530 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -200,25 +200,29 @@ func ToTables(values []interface{}) []stmt.Table {
 
 // ToFrom takes an empty interfaces and returns a From instance.
 func ToFrom(args ...interface{}) stmt.From {
-	from := stmt.From{}
-
-	tables := make([]stmt.Statement, len(args))
+	tables := make([]stmt.Statement, 0, len(args))
 	for i := range args {
 		switch value := args[i].(type) {
 		case string:
-			tables[i] = stmt.NewTable(value)
+			tables = append(tables, stmt.NewTable(value))
 		case stmt.From:
-			from = value
+			tables = append(tables, value.Tables...)
 		case stmt.Table:
-			tables[i] = value
+			tables = append(tables, value)
 		case stmt.Raw:
-			tables[i] = value
+			tables = append(tables, value)
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as from clause", args[i]))
 		}
 	}
 
-	from = stmt.NewFrom(tables)
+	for i := range tables {
+		if tables[i] == nil || tables[i].IsEmpty() {
+			panic("loukoum: given from clause is undefined")
+		}
+	}
+
+	from := stmt.NewFrom(tables)
 	if from.IsEmpty() {
 		panic("loukoum: given from clause is undefined")
 	}
-- 
2.43.0


From ae0f07b03c68e49e5d2a6ce9bfb8697ae2dd8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 11/27] fix: recognize builder values in type predicates

---
 builder/builder.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 83a7530..ec3482f 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -27,26 +27,42 @@ type Builder interface {
 
 // IsSelectBuilder returns true if given builder is of type "Select"
 func IsSelectBuilder(builder Builder) bool {
-	_, ok := builder.(*Select)
-	return ok
+	switch builder.(type) {
+	case Select, *Select:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsInsertBuilder returns true if given builder is of type "Insert"
 func IsInsertBuilder(builder Builder) bool {
-	_, ok := builder.(*Insert)
-	return ok
+	switch builder.(type) {
+	case Insert, *Insert:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsUpdateBuilder returns true if given builder is of type "Update"
 func IsUpdateBuilder(builder Builder) bool {
-	_, ok := builder.(*Update)
-	return ok
+	switch builder.(type) {
+	case Update, *Update:
+		return true
+	default:
+		return false
+	}
 }
 
 // IsDeleteBuilder returns true if given builder is of type "Delete"
 func IsDeleteBuilder(builder Builder) bool {
-	_, ok := builder.(*Delete)
-	return ok
+	switch builder.(type) {
+	case Delete, *Delete:
+		return true
+	default:
+		return false
+	}
 }
 
 // ToColumn takes an empty interfaces and returns a Column instance.
-- 
2.43.0


From 13909c5d39bb9572eeb5477dde564260b228e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 12/27] fix: accept uint as limit and offset

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index ec3482f..48da650 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -321,6 +321,10 @@ func ToInt64(value interface{}) (int64, bool) { // nolint: gocyclo
 		return int64(cast), true
 	case int32:
 		return int64(cast), true
+	case uint:
+		if uint64(cast) <= math.MaxInt64 {
+			return int64(cast), true
+		}
 	case uint8:
 		return int64(cast), true
 	case uint16:
-- 
2.43.0


From 7079588bd8a310d02eb737f4a57a984f1751650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 13/27] fix: check limit and offset objects like their plain
 counterparts

---
 builder/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 48da650..dadaf08 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -383,7 +383,7 @@ func ToSet(args []interface{}) stmt.Set {
 func ToLimit(arg interface{}) stmt.Limit {
 	switch value := arg.(type) {
 	case stmt.Limit:
-		return value
+		return ToLimit(value.Count)
 	default:
 		limit, ok := ToInt64(value)
 		if !ok {
@@ -400,7 +400,7 @@ func ToLimit(arg interface{}) stmt.Limit {
 func ToOffset(arg interface{}) stmt.Offset {
 	switch value := arg.(type) {
 	case stmt.Offset:
-		return value
+		return ToOffset(value.Start)
 	default:
 		offset, ok := ToInt64(value)
 		if !ok {
-- 
2.43.0


From 38af6150c24aa2fa0d7a219b5e6e391ab1765451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 14/27] fix: keep a comment on a single line

---
 stmt/comment.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stmt/comment.go b/stmt/comment.go
index d42d2a0..fa1e7a5 100644
--- a/stmt/comment.go
+++ b/stmt/comment.go
@@ -1,6 +1,8 @@
 package stmt
 
 import (
+	"strings"
+
 	"github.com/ulule/loukoum/v3/token"
 	"github.com/ulule/loukoum/v3/types"
 )
@@ -17,6 +19,9 @@ func NewComment(comment string) Comment {
 	}
 }
 
+// newlines would terminate the comment and let its remainder be read as SQL.
+var newlines = strings.NewReplacer("\n", " ", "\r", " ")
+
 // Write exposes statement as a SQL query.
 func (comment Comment) Write(ctx types.Context) {
 	if comment.IsEmpty() {
@@ -24,7 +29,7 @@ func (comment Comment) Write(ctx types.Context) {
 	}
 	ctx.Write(token.Comment.String())
 	ctx.Write(" ")
-	ctx.Write(comment.Comment)
+	ctx.Write(newlines.Replace(comment.Comment))
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From 8212a322d7048250528232a76ed6482f343b465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 15/27] fix: convert a nil time pointer to NULL

---
 stmt/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stmt/expression.go b/stmt/expression.go
index 6e00644..26cba61 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -32,6 +32,9 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 	case time.Time:
 		return NewValue(value)
 	case *time.Time:
+		if value == nil {
+			return NewValue(nil)
+		}
 		return NewValue(*value)
 	case StatementEncoder:
 		stmt := value.Statement()
-- 
2.43.0


From 5651d49bbb19f4d4166677c89875a212e70d19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 16/27] fix: reject an on conflict clause with an empty update
 or trailing arguments

---
 builder/insert.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/builder/insert.go b/builder/insert.go
index 71dcf11..6569020 100644
--- a/builder/insert.go
+++ b/builder/insert.go
@@ -84,24 +84,32 @@ func (b Insert) OnConflict(args ...interface{}) Insert {
 	}
 
 	for i := range args {
+		if !b.query.OnConflict.IsEmpty() {
+			panic("loukoum: on conflict clause expects its action as last argument")
+		}
 		switch value := args[i].(type) {
 		case string, stmt.Column:
 			b.query.OnConflict.Target.Columns = append(b.query.OnConflict.Target.Columns, ToColumn(value))
 		case stmt.ConflictNoAction:
 			b.query.OnConflict.Action = value
-			return b
 		case stmt.ConflictUpdateAction:
 			if b.query.OnConflict.Target.IsEmpty() {
 				panic("loukoum: on conflict update clause requires at least one target")
 			}
+			if value.IsEmpty() {
+				panic("loukoum: on conflict update clause requires at least one value")
+			}
 			b.query.OnConflict.Action = value
-			return b
 		default:
 			panic(fmt.Sprintf("loukoum: cannot use %T as on conflict clause", args[i]))
 		}
 	}
 
-	panic("loukoum: on conflict clause requires an action")
+	if b.query.OnConflict.IsEmpty() {
+		panic("loukoum: on conflict clause requires an action")
+	}
+
+	return b
 }
 
 // Set is a wrapper that defines columns and values clauses using a pair.
-- 
2.43.0


From d505a9bae2471b1aaf5e785457fc2f94d0fd6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 17/27] fix: reject a row without values and keep each value of
 a row

---
 stmt/expression.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 26cba61..f995f63 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -310,20 +310,44 @@ type ArrayList struct {
 // NewArrayListExpression creates a new Expression using a list of values.
 func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyclo
 	// We pass only one argument and it's a slice or an expression.
+	if len(values) == 0 {
+		panic("loukoum: a list requires at least one value")
+	}
+
 	arraylist := toArrayList(values[0])
-	if len(arraylist.Values) == 0 {
+	switch {
+	case len(arraylist.Values) == 0 && len(values) == 1 && values[0] == nil:
+		arraylist.Values = []Expression{newRow(values...)}
+	case len(arraylist.Values) == 0:
 		arraylist.Values = []Expression{NewArrayExpression(values...)}
+	case len(values) > 1:
+		panic("loukoum: a list of rows cannot be used with other values")
+	}
 
+	for i := range arraylist.Values {
+		if arraylist.Values[i].IsEmpty() {
+			panic("loukoum: a row requires at least one value")
+		}
 	}
+
 	return arraylist
 }
 
+// newRow returns a row having exactly given values.
+func newRow(values ...interface{}) Array {
+	row := Array{}
+	for i := range values {
+		row.Append(values[i])
+	}
+	return row
+}
+
 func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 	arraylist := ArrayList{}
 	switch values := value.(type) {
 	case [][]interface{}:
 		for i := range values {
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(values[i]...))
+			arraylist.Values = append(arraylist.Values, newRow(values[i]...))
 		}
 	case [][]string:
 		for i := range values {
@@ -332,7 +356,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 				raws[j] = values[i][j]
 			}
 
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]int:
 		for i := range values {
@@ -340,7 +364,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]int64:
 		for i := range values {
@@ -348,7 +372,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]bool:
 		for i := range values {
@@ -356,7 +380,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	case [][]Expression:
 		for i := range values {
@@ -364,7 +388,7 @@ func toArrayList(value interface{}) ArrayList { // nolint: gocyclo
 			for j := range values[i] {
 				raws[j] = values[i][j]
 			}
-			arraylist.Values = append(arraylist.Values, NewArrayExpression(raws...))
+			arraylist.Values = append(arraylist.Values, newRow(raws...))
 		}
 	}
 
-- 
2.43.0


From 0249356711ebb54eb7c3cb72bc35c138dbf21b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 18/27] fix: enclose a subquery in parentheses wherever it is
 an operand

---
 stmt/expression.go | 16 ++++++++++++----
 stmt/having.go     |  2 +-
 stmt/infix.go      |  4 ++--
 stmt/set.go        |  7 ++++++-
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index f995f63..5ad7f72 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -210,12 +210,12 @@ func (identifier Identifier) NotILike(value interface{}) InfixExpression {
 
 // Between performs a "between" condition.
 func (identifier Identifier) Between(from, to interface{}) Between {
-	return NewBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // NotBetween performs a "not between" condition.
 func (identifier Identifier) NotBetween(from, to interface{}) Between {
-	return NewNotBetween(identifier, NewExpression(from), NewExpression(to))
+	return NewNotBetween(identifier, NewWrapper(NewExpression(from)), NewWrapper(NewExpression(to)))
 }
 
 // IsDistinctFrom performs an "is distinct from" comparison.
@@ -319,7 +319,11 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 	case len(arraylist.Values) == 0 && len(values) == 1 && values[0] == nil:
 		arraylist.Values = []Expression{newRow(values...)}
 	case len(arraylist.Values) == 0:
-		arraylist.Values = []Expression{NewArrayExpression(values...)}
+		row := NewArrayExpression(values...).(Array)
+		for i := range row.Values {
+			row.Values[i] = NewWrapper(row.Values[i])
+		}
+		arraylist.Values = []Expression{row}
 	case len(values) > 1:
 		panic("loukoum: a list of rows cannot be used with other values")
 	}
@@ -337,7 +341,7 @@ func NewArrayListExpression(values ...interface{}) Expression { // nolint: gocyc
 func newRow(values ...interface{}) Array {
 	row := Array{}
 	for i := range values {
-		row.Append(values[i])
+		row.Values = append(row.Values, NewWrapper(NewExpression(values[i])))
 	}
 	return row
 }
@@ -522,6 +526,10 @@ func (array Array) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
+		// A subquery is a whole list on its own, but an item of it requires parentheses.
+		if len(array.Values) > 1 {
+			value = NewWrapper(value)
+		}
 		value.Write(ctx)
 	}
 }
diff --git a/stmt/having.go b/stmt/having.go
index 2e1d014..cc43d4a 100644
--- a/stmt/having.go
+++ b/stmt/having.go
@@ -15,7 +15,7 @@ type Having struct {
 func NewHaving(expression Expression) Having {
 	requireCondition(expression)
 	return Having{
-		Condition: expression,
+		Condition: NewWrapper(expression),
 	}
 }
 
diff --git a/stmt/infix.go b/stmt/infix.go
index 09841b9..ba545d3 100644
--- a/stmt/infix.go
+++ b/stmt/infix.go
@@ -15,9 +15,9 @@ type InfixExpression struct {
 // NewInfixExpression returns a new InfixExpression instance.
 func NewInfixExpression(left Expression, operator Operator, right Expression) InfixExpression {
 	return InfixExpression{
-		Left:     left,
+		Left:     NewWrapper(left),
 		Operator: operator,
-		Right:    right,
+		Right:    NewWrapper(right),
 	}
 }
 
diff --git a/stmt/set.go b/stmt/set.go
index ec73722..a4e872c 100644
--- a/stmt/set.go
+++ b/stmt/set.go
@@ -211,7 +211,12 @@ func (pairs PairContainer) WriteArray(ctx types.Context) {
 		if i != 0 {
 			ctx.Write(", ")
 		}
-		pairs.Expressions[i].Write(ctx)
+		// A subquery is a whole list on its own, but an item of it requires parentheses.
+		expression := pairs.Expressions[i]
+		if len(pairs.Expressions) > 1 {
+			expression = NewWrapper(expression)
+		}
+		expression.Write(ctx)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From 5dcaba671e6e68366c5d65106f63a1d588d34da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 19/27] fix: discard the comment of a subquery

---
 stmt/expression.go | 6 ++++--
 stmt/select.go     | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 5ad7f72..76dd1b7 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -21,6 +21,8 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		return NewValue(nil)
 	}
 	switch value := arg.(type) {
+	case Select:
+		return value.withoutComment()
 	case Expression:
 		return value
 	case string, bool, int, int8, int16, int32, int64,
@@ -42,7 +44,7 @@ func NewExpression(arg interface{}) Expression { // nolint: gocyclo
 		if !ok {
 			panic(fmt.Sprintf("cannot use {%+v}[%T] as loukoum Expression", value, value))
 		}
-		return expression
+		return NewExpression(expression)
 	case Int64Encoder:
 		return NewValue(value.Int64())
 	case BoolEncoder:
@@ -596,7 +598,7 @@ func NewWrapper(arg Expression) Expression {
 	switch value := arg.(type) {
 	case Select:
 		return &Wrapper{
-			Value: value,
+			Value: value.withoutComment(),
 		}
 	case Exists:
 		return &Wrapper{
diff --git a/stmt/select.go b/stmt/select.go
index 0ec5519..67f78db 100644
--- a/stmt/select.go
+++ b/stmt/select.go
@@ -134,6 +134,12 @@ func (selekt Select) writeTail(ctx types.Context) {
 	}
 }
 
+// withoutComment returns the statement for use as a subquery: a comment would terminate the enclosing statement.
+func (selekt Select) withoutComment() Select {
+	selekt.Comment = Comment{}
+	return selekt
+}
+
 // IsEmpty returns true if statement is undefined.
 func (selekt Select) IsEmpty() bool {
 	return len(selekt.Expressions) == 0
-- 
2.43.0


From c39a82a05ef95b59b702b670f6863c89005b1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 20/27] fix: reject an empty with query, order or column
 instead of rendering it

---
 builder/builder.go | 11 ++++++++++-
 builder/select.go  | 12 ++++++++++++
 builder/update.go  |  6 ++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index dadaf08..93aa96f 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -138,6 +138,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 	if len(values) == 1 {
 		switch array := values[0].(type) {
 		case []stmt.SelectExpression:
+			for i := range array {
+				if array[i] == nil || array[i].IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+			}
 			return append([]stmt.SelectExpression{}, array...)
 		case []stmt.Column:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
@@ -151,7 +156,11 @@ func ToSelectExpressions(values []interface{}) []stmt.SelectExpression { // noli
 		case []string:
 			expressions := make([]stmt.SelectExpression, 0, len(values))
 			for i := range array {
-				expressions = append(expressions, stmt.NewColumn(array[i]))
+				column := stmt.NewColumn(array[i])
+				if column.IsEmpty() {
+					panic("loukoum: given column is undefined")
+				}
+				expressions = append(expressions, column)
 			}
 			return expressions
 		}
diff --git a/builder/select.go b/builder/select.go
index 4cd3be1..9dca084 100644
--- a/builder/select.go
+++ b/builder/select.go
@@ -131,6 +131,12 @@ func (b Select) join3(args []interface{}) Select {
 
 // With adds WITH clauses.
 func (b Select) With(args ...stmt.WithQuery) Select {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	queries := b.query.With.Queries
 	b.query.With.Queries = append(queries[:len(queries):len(queries)], args...)
 	return b
@@ -194,6 +200,12 @@ func (b Select) Having(condition stmt.Expression) Select {
 
 // OrderBy adds ORDER BY clauses.
 func (b Select) OrderBy(orders ...stmt.Order) Select {
+	for i := range orders {
+		if orders[i].IsEmpty() {
+			panic("loukoum: given order by clause is undefined")
+		}
+	}
+
 	list := b.query.OrderBy.Orders
 	b.query.OrderBy.Orders = append(list[:len(list):len(list)], orders...)
 	return b
diff --git a/builder/update.go b/builder/update.go
index a480291..e4fc9a2 100644
--- a/builder/update.go
+++ b/builder/update.go
@@ -54,6 +54,12 @@ func (b Update) Using(args ...interface{}) Update {
 
 // With adds WITH clauses.
 func (b Update) With(args ...stmt.WithQuery) Update {
+	for i := range args {
+		if args[i].IsEmpty() {
+			panic("loukoum: given with clause is undefined")
+		}
+	}
+
 	queries := b.query.With.Queries
 	b.query.With.Queries = append(queries[:len(queries):len(queries)], args...)
 	return b
-- 
2.43.0


From af6ced86ecfbc441b76a559f5c3315e0cedc5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 21/27] fix: do not read a NUL character as the end of input

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 9488a9d..35774f0 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -9,7 +9,7 @@ import (
 
 const (
 	// EOF sentinel
-	eof = 0
+	eof = -1
 	// Newline sentinel
 	newline = '\n'
 )
-- 
2.43.0


From 9c91950dd549e413fa683219776fdcb351f63f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 22/27] fix: format a float that is not finite as a string
 literal

---
 format/format.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/format.go b/format/format.go
index a6e0d52..3b3cbca 100644
--- a/format/format.go
+++ b/format/format.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"time"
@@ -113,6 +114,14 @@ func Bool(value bool) string {
 
 // Float formats the given number.
 func Float(value float64) string {
+	switch {
+	case math.IsNaN(value):
+		return "'NaN'"
+	case math.IsInf(value, 1):
+		return "'Infinity'"
+	case math.IsInf(value, -1):
+		return "'-Infinity'"
+	}
 	return strconv.FormatFloat(value, 'f', -1, 64)
 }
 
-- 
2.43.0


From f350823601f894218e10626d225bcf5682a5ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 23/27] fix: do not keep the caller's slice of arguments in a
 function call

---
 stmt/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 76dd1b7..7cc4943 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -644,7 +644,7 @@ type Call struct {
 func NewCall(function string, args ...Expression) Call {
 	return Call{
 		function: function,
-		args:     args,
+		args:     append([]Expression(nil), args...),
 	}
 }
 
-- 
2.43.0


From 2884923099b4be45dadedf72fb69798f445503e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 24/27] fix: quote an alias with dots as a single name

---
 stmt/column.go | 2 +-
 stmt/stmt.go   | 7 ++++++-
 stmt/table.go  | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/stmt/column.go b/stmt/column.go
index c5fb4c1..185dc3e 100644
--- a/stmt/column.go
+++ b/stmt/column.go
@@ -67,7 +67,7 @@ func (column Column) Write(ctx types.Context) {
 		ctx.Write(" ")
 		ctx.Write(token.As.String())
 		ctx.Write(" ")
-		ctx.Write(quote(column.Alias))
+		ctx.Write(quoteAlias(column.Alias))
 	}
 }
 
diff --git a/stmt/stmt.go b/stmt/stmt.go
index b172a94..e7e7eba 100644
--- a/stmt/stmt.go
+++ b/stmt/stmt.go
@@ -19,7 +19,12 @@ func quote(ident string) string {
 	split := strings.Split(ident, ".")
 	quoted := make([]string, 0, len(split))
 	for i := range split {
-		quoted = append(quoted, `"`+strings.ReplaceAll(split[i], `"`, `""`)+`"`)
+		quoted = append(quoted, quoteAlias(split[i]))
 	}
 	return strings.Join(quoted, ".")
 }
+
+// quoteAlias quotes a single name: unlike a column or a table, an alias has no qualifier.
+func quoteAlias(alias string) string {
+	return `"` + strings.ReplaceAll(alias, `"`, `""`) + `"`
+}
diff --git a/stmt/table.go b/stmt/table.go
index 8e57c83..492e1d6 100644
--- a/stmt/table.go
+++ b/stmt/table.go
@@ -48,7 +48,7 @@ func (table Table) Write(ctx types.Context) {
 		ctx.Write(" ")
 		ctx.Write(token.As.String())
 		ctx.Write(" ")
-		ctx.Write(quote(table.Alias))
+		ctx.Write(quoteAlias(table.Alias))
 	}
 }
 
-- 
2.43.0


From f754ff4c80ea945c8f9486d99e4e5fb9d222960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 25/27] fix: enclose a subquery in parentheses as a join
 condition

---
 stmt/join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/join.go b/stmt/join.go
index aeca110..88dff56 100644
--- a/stmt/join.go
+++ b/stmt/join.go
@@ -44,7 +44,7 @@ func (join Join) Write(ctx types.Context) {
 	ctx.Write(" ")
 	ctx.Write(token.On.String())
 	ctx.Write(" ")
-	join.Condition.Write(ctx)
+	NewWrapper(join.Condition).Write(ctx)
 }
 
 // IsEmpty returns true if statement is undefined.
-- 
2.43.0


From 78c0e1797e885728adcb29ad4c13fc5dc0ce6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 26/27] fix: enclose a subquery in parentheses as an argument
 of a function call

---
 stmt/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt/expression.go b/stmt/expression.go
index 7cc4943..2fee9e8 100644
--- a/stmt/expression.go
+++ b/stmt/expression.go
@@ -658,7 +658,7 @@ func (call Call) Write(ctx types.Context) {
 		if i > 0 {
 			ctx.Write(", ")
 		}
-		arg.Write(ctx)
+		NewWrapper(arg).Write(ctx)
 	}
 	ctx.Write(")")
 }
-- 
2.43.0


From bf300c6d203b73488c4d1eec0a6cf83f8b04594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 27/27] fix: write ONLY once in an update statement

---
 stmt/update.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stmt/update.go b/stmt/update.go
index 8b09560..5c94d5a 100644
--- a/stmt/update.go
+++ b/stmt/update.go
@@ -38,13 +38,13 @@ func (update Update) Write(ctx types.Context) {
 
 	ctx.Write(token.Update.String())
 
+	table := update.Table
 	if update.Only {
-		ctx.Write(" ")
-		ctx.Write(token.Only.String())
+		table = table.Only()
 	}
 
 	ctx.Write(" ")
-	update.Table.Write(ctx)
+	table.Write(ctx)
 
 	ctx.Write(" ")
 	update.Set.Write(ctx)
-- 
2.43.0

