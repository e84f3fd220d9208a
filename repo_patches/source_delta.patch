From 9287d22230a3e508dce040d48c4f64dce6595cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 01/53] fix: report errors that end a list query before its
 last row

---
 query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query.go b/query.go
index 23a870c..6a4cddc 100644
--- a/query.go
+++ b/query.go
@@ -49,6 +49,9 @@ func ExecuteListQuery[T any, TPointer RowPointer[T]](ctx context.Context, sql DB
 		}
 		list = append(list, m)
 	}
+	if err = rows.Err(); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	return list, nil
 }
 
-- 
2.43.0


From a437546348cc17d2f49b079761b9171cc85d4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 02/53] fix: honour the transaction options given to BeginTx

---
 prov.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prov.go b/prov.go
index 279b4d4..8dd1636 100644
--- a/prov.go
+++ b/prov.go
@@ -82,11 +82,11 @@ func (p *SQLProvider) keepAlive(period time.Duration) {
 // The provided TxOptions is optional and may be nil if defaults should be used.
 // If a non-default isolation level is used that the driver doesn't support,
 // an error will be returned.
-func (p *SQLProvider) BeginTx(ctx context.Context, _ *sql.TxOptions) (Provider, error) {
+func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provider, error) {
 	if p.tx != nil {
 		return nil, errors.New("transaction already started")
 	}
-	tx, err := p.conn.BeginTx(ctx, nil)
+	tx, err := p.conn.BeginTx(ctx, opts)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 3f65155a473a7c1c7980d134cc29e29826c23988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 03/53] fix: stop the keep-alive goroutine on Close and make
 Close safe beside other calls

---
 prov.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/prov.go b/prov.go
index 8dd1636..6bbcb3f 100644
--- a/prov.go
+++ b/prov.go
@@ -3,6 +3,7 @@ package xdb
 import (
 	"context"
 	"database/sql"
+	"sync"
 	"time"
 
 	"github.com/cockroachdb/errors"
@@ -14,13 +15,14 @@ var logger = xlog.NewPackageLogger("github.com/effective-security/xdb", "xdb")
 
 // SQLProvider represents SQL client instance
 type SQLProvider struct {
-	name    string
-	conn    *sql.DB
-	connstr string
-	db      DB
-	idGen   flake.IDGenerator
-	tx      Tx
-	ticker  *time.Ticker
+	name     string
+	conn     *sql.DB
+	connstr  string
+	db       DB
+	idGen    flake.IDGenerator
+	tx       Tx
+	stop     chan struct{}
+	stopOnce sync.Once
 }
 
 // New creates a Provider instance
@@ -55,20 +57,24 @@ func (p *SQLProvider) Name() string {
 }
 
 func (p *SQLProvider) keepAlive(period time.Duration) {
-	p.ticker = time.NewTicker(period)
-	ch := p.ticker.C
+	p.stop = make(chan struct{})
 
 	// Go function
 	go func() {
-		// Using for loop
-		for range ch {
-			err := p.conn.Ping()
-			if err != nil {
-				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
-				continue
+		ticker := time.NewTicker(period)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-p.stop:
+				logger.KV(xlog.TRACE, "status", "stopped")
+				return
+			case <-ticker.C:
+				err := p.conn.Ping()
+				if err != nil {
+					logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
+				}
 			}
 		}
-		logger.KV(xlog.TRACE, "status", "stopped")
 	}()
 }
 
@@ -103,9 +109,8 @@ func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provide
 
 // Close connection and release resources
 func (p *SQLProvider) Close() (err error) {
-	if p.ticker != nil {
-		p.ticker.Stop()
-		p.ticker = nil
+	if p.stop != nil {
+		p.stopOnce.Do(func() { close(p.stop) })
 	}
 	if p.conn == nil {
 		return nil
@@ -116,8 +121,6 @@ func (p *SQLProvider) Close() (err error) {
 
 	if err = p.conn.Close(); err != nil {
 		logger.KV(xlog.ERROR, "err", err)
-	} else {
-		p.conn = nil
 	}
 	logger.KV(xlog.TRACE, "status", "closed")
 	return
-- 
2.43.0


From 0acdb941628e5a148da74e4ffbeafc93c22d3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 04/53] fix: changing an ID does not change its copies

---
 id.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/id.go b/id.go
index a504b7d..11aa5a0 100644
--- a/id.go
+++ b/id.go
@@ -121,12 +121,8 @@ func (v ID) UInt64() uint64 {
 
 // Reset the value
 func (v *ID) Reset() {
-	if v.id == nil {
-		v.id = &idptr{}
-	} else {
-		v.id.id = 0
-		v.id.str = ""
-	}
+	// copies of the ID share the pointer
+	v.id = &idptr{}
 }
 
 // Set the value
@@ -139,11 +135,8 @@ func (v *ID) Set(val string) error {
 	if err != nil || id == 0 {
 		return errors.Errorf("invalid ID: '%s'", val)
 	}
-	if v.id == nil {
-		v.id = &idptr{}
-	}
-	v.id.id = id
-	v.id.str = ""
+	// copies of the ID share the pointer
+	v.id = &idptr{id: id}
 
 	return nil
 }
-- 
2.43.0


From b1a1a0d11619849bc9083adb6fc2236042ac3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 05/53] fix: scanning NULL clears the value of an earlier row

---
 id.go    | 2 ++
 types.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/id.go b/id.go
index 11aa5a0..fdff646 100644
--- a/id.go
+++ b/id.go
@@ -144,6 +144,7 @@ func (v *ID) Set(val string) error {
 // Scan implements the Scanner interface.
 func (v *ID) Scan(value any) error {
 	if value == nil {
+		*v = ID{}
 		return nil
 	}
 
@@ -371,6 +372,7 @@ func (v ID32) String() string {
 // Scan implements the Scanner interface.
 func (v *ID32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
diff --git a/types.go b/types.go
index d960b10..6c73cfb 100644
--- a/types.go
+++ b/types.go
@@ -422,6 +422,7 @@ func (v Int64) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int64) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -496,6 +497,7 @@ func (v Int32) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -566,6 +568,7 @@ func (v Float) Float() float64 {
 // Scan implements the Scanner interface.
 func (v *Float) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -641,6 +644,7 @@ func (v Bool) Bool() bool {
 // Scan implements the Scanner interface.
 func (v *Bool) Scan(value any) error {
 	if value == nil {
+		*v = false
 		return nil
 	}
 
-- 
2.43.0


From a6e09d71296210cc980e2c4ffa74239e2137b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 06/53] fix: scanning lists and maps replaces the value of an
 earlier row

---
 types.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 6c73cfb..d6aa693 100644
--- a/types.go
+++ b/types.go
@@ -150,7 +150,13 @@ func (n *Strings) Scan(value any) error {
 		*n = Strings{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(v), n))
+	// do not decode into the list of an earlier row
+	var list Strings
+	if err := json.Unmarshal([]byte(v), &list); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = list
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -242,7 +248,13 @@ func (n *Metadata) Scan(value any) error {
 		*n = Metadata{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// do not decode into the map of an earlier row
+	var m Metadata
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -292,7 +304,13 @@ func (n *KVSet) Scan(value any) error {
 		*n = KVSet{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// do not decode into the map of an earlier row
+	var m KVSet
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From 09f150b0c0f2ff78a17d15cfe5c27bc219e071df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 07/53] fix: UUID.Scan reports a value of the wrong length

---
 types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types.go b/types.go
index d6aa693..c2d1f63 100644
--- a/types.go
+++ b/types.go
@@ -372,11 +372,10 @@ func (ns *UUID) Scan(value any) error {
 	}
 
 	var s string
-	var err error
 	switch vid := value.(type) {
 	case []byte:
 		if len(vid) != 16 {
-			return errors.WithMessagef(err, "failed to parse UUID: %v", vid)
+			return errors.Errorf("failed to parse UUID: %v", vid)
 		}
 		s = fmt.Sprintf("%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X",
 			vid[3], vid[2], vid[1], vid[0], vid[5], vid[4], vid[7], vid[6], vid[8], vid[9], vid[10], vid[11], vid[12], vid[13], vid[14], vid[15])
-- 
2.43.0


From 4a7f477563d993330bed24d8f6127c49e7935db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 08/53] fix: a cloned statement continues at the clause it was
 copied at

---
 xsql/stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 59520d6..d60db3f 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1007,6 +1007,8 @@ func (q *Stmt) Clone() Builder {
 	stmt.dest = insertAt(stmt.dest, q.dest, 0)
 	_, _ = stmt.buf.Write(q.buf.B)
 	stmt.sql = q.sql
+	stmt.pos = q.pos
+	stmt.useNewLines = q.useNewLines
 
 	return stmt
 }
-- 
2.43.0


From 69af9951d5033fac6c0c3c786e3ec2c4870295d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 09/53] fix: the text cache tells statements apart by clauses
 and arguments, not only by contents

---
 xsql/stmt.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index d60db3f..ff01e7a 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -4,9 +4,9 @@ import (
 	"context"
 	"database/sql"
 	"reflect"
+	"strconv"
 	"strings"
 
-	"github.com/effective-security/x/values"
 	"github.com/valyala/bytebufferpool"
 )
 
@@ -909,9 +909,8 @@ func (q *Stmt) Clause(expr string, args ...any) Builder {
 // String method builds and returns an SQL statement.
 func (q *Stmt) String() string {
 	if q.sql == "" {
-		// Calculate the buffer hash and check for available queries
-		// NOTE: can't use bufToString here as it returns Raw pointer
-		bufStrKey := values.StringsCoalesce(q.name, q.buf.String())
+		// Check for available queries
+		bufStrKey := q.cacheKey()
 		sql, ok := q.dialect.GetCachedQuery(bufStrKey)
 		if ok {
 			q.sql = sql
@@ -943,6 +942,30 @@ func (q *Stmt) String() string {
 	return q.sql
 }
 
+// cacheKey returns the name of the statement, or the contents of its buffer
+// together with its division into clauses: the same contents make different
+// queries when they belong to other clauses, or have arguments or not.
+func (q *Stmt) cacheKey() string {
+	if q.name != "" {
+		return q.name
+	}
+	key := make([]byte, 0, len(q.chunks)*16+len(q.buf.B)+1)
+	for _, chunk := range q.chunks {
+		key = strconv.AppendInt(key, int64(chunk.pos), 10)
+		key = append(key, ':')
+		key = strconv.AppendInt(key, int64(chunk.bufLow), 10)
+		key = append(key, '-')
+		key = strconv.AppendInt(key, int64(chunk.bufHigh), 10)
+		if chunk.argLen > 0 {
+			key = append(key, '?')
+		}
+		key = append(key, ';')
+	}
+	key = append(key, '\n')
+	key = append(key, q.buf.B...)
+	return string(key)
+}
+
 /*
 Args returns the list of arguments to be passed to
 database driver for statement execution.
-- 
2.43.0


From 296e0d7c3aeea33384a61bdc743bacb6cf8bffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 10/53] fix: the name of query parameters follows later changes

---
 params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/params.go b/params.go
index 24b71b4..b76cde0 100644
--- a/params.go
+++ b/params.go
@@ -146,6 +146,7 @@ func (b *QueryParamsBuilder) Name() string {
 // SetNullColums sets a list of columns that should be replaced with NULL.
 func (b *QueryParamsBuilder) SetNullColums(nullColumns []string) *QueryParamsBuilder {
 	b.nullColumns = nullColumns
+	b.hash = ""
 	return b
 }
 
@@ -165,6 +166,7 @@ func (b *QueryParamsBuilder) Set(pos uint32, v any) *QueryParamsBuilder {
 		panic("enum position is out of range")
 	}
 	b.checkPage()
+	b.hash = ""
 	b.positions |= 1 << pos
 	b.args = append(b.args, v)
 	return b
@@ -179,6 +181,7 @@ func (b *QueryParamsBuilder) checkPage() {
 // SetPage sets the limit for pagination, and adds it to the list of arguments.
 func (b *QueryParamsBuilder) SetPage(limit, offset uint32) *QueryParamsBuilder {
 	b.checkPage()
+	b.hash = ""
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
 	b.offset = offset
 	b.args = append(b.args, b.limit, b.offset)
@@ -222,6 +225,7 @@ func (b *QueryParamsBuilder) SetEnum(pos uint32, v int32) *QueryParamsBuilder {
 		panic("enum position is out of range")
 	}
 	b.checkPage()
+	b.hash = ""
 	b.positions |= 1 << pos
 	b.enums = append(b.enums, enumPosition{pos, v})
 	return b
@@ -241,6 +245,7 @@ func (b *QueryParamsBuilder) GetEnum(pos uint32) (int32, bool) {
 // SetFlags sets additional flags for query parameter.
 func (b *QueryParamsBuilder) SetFlags(v ...int32) *QueryParamsBuilder {
 	b.flags = v
+	b.hash = ""
 	return b
 }
 
-- 
2.43.0


From 374f022eac0a480f2d1f42999928887d674d9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 11/53] fix: Reset of query parameters clears the null columns

---
 params.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/params.go b/params.go
index b76cde0..4e4abd7 100644
--- a/params.go
+++ b/params.go
@@ -100,6 +100,7 @@ func (b *QueryParamsBuilder) Reset() {
 	b.limit = 0
 	b.offset = 0
 	b.cursor = nil
+	b.nullColumns = nil
 }
 
 // Name returns a hash of the query parameters.
-- 
2.43.0


From eb53dacdbd7f4a6032db237df580a73e26737710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 12/53] fix: naming query parameters does not reorder the
 caller's column list

---
 params.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index 4e4abd7..e5217b8 100644
--- a/params.go
+++ b/params.go
@@ -131,8 +131,10 @@ func (b *QueryParamsBuilder) Name() string {
 
 		if len(b.nullColumns) > 0 {
 			h := murmur3.New64()
-			sort.Strings(b.nullColumns)
-			for _, c := range b.nullColumns {
+			// the list belongs to the caller
+			columns := append([]string(nil), b.nullColumns...)
+			sort.Strings(columns)
+			for _, c := range columns {
 				h.Write([]byte(c))
 			}
 			n.WriteString("_n")
-- 
2.43.0


From def2142e1f1b880246f9a5ea833ea7bbf5efb7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 13/53] fix: schema listings close their rows and read them
 before the next query

---
 schema/provider.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 198ba2a..316a5ee 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -70,6 +70,10 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
 
+	defer func() {
+		_ = rows.Close()
+	}()
+
 	tt := Tables{}
 	for rows.Next() {
 		t := new(Table)
@@ -86,7 +90,18 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 		}
 
 		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
+		tt = append(tt, t)
+	}
+
+	if rows.Err() != nil {
+		return nil, rows.Err()
+	}
+	// release the connection before the next query
+	if err := rows.Close(); err != nil {
+		return nil, errors.WithStack(err)
+	}
 
+	for _, t := range tt {
 		cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
 		if err != nil {
 			return nil, errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
@@ -112,11 +127,6 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 		}
 
 		r.tables[t.SchemaName] = t
-		tt = append(tt, t)
-	}
-
-	if rows.Err() != nil {
-		return nil, rows.Err()
 	}
 
 	if withDependencies {
@@ -142,6 +152,10 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
 
+	defer func() {
+		_ = rows.Close()
+	}()
+
 	tablesMap := map[string]*Table{} // map of Table FQN => table
 
 	for rows.Next() {
@@ -208,6 +222,10 @@ func (r *SQLServerProvider) readColumnsSchema(ctx context.Context, schema, table
 		return nil, errors.WithStack(err)
 	}
 
+	defer func() {
+		_ = rows.Close()
+	}()
+
 	cc := Columns{}
 	for rows.Next() {
 		c := &Column{}
@@ -244,6 +262,10 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 		return nil, nil, errors.WithStack(err)
 	}
 
+	defer func() {
+		_ = rows.Close()
+	}()
+
 	var pk *Index
 	cc := Indexes{}
 	for rows.Next() {
@@ -284,6 +306,10 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 		return nil, errors.WithMessagef(err, "failed to query foreign keys")
 	}
 
+	defer func() {
+		_ = rows.Close()
+	}()
+
 	keys := ForeignKeys{}
 	for rows.Next() {
 		k := new(ForeignKey)
-- 
2.43.0


From f0045670409271891435dd26c228f500dd354407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 14/53] fix: listing tables does not panic on an index over a
 column that is not visible

---
 schema/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 316a5ee..e94fada 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -119,6 +119,10 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			for _, cn := range idx.ColumnNames {
 				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
 				col := r.columns[colShemaName]
+				if col == nil {
+					// the column is not visible
+					continue
+				}
 				col.Indexes = append(col.Indexes, idx)
 				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
 					t.PrimaryKey = col
-- 
2.43.0


From 98a5cf9241bc1c6e5103ec8a6639e4fb1a0ec743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 15/53] fix: a table listing does not depend on earlier
 listings, dependencies are complete

---
 schema/provider.go | 178 +++++++++++++++++++++------------------------
 1 file changed, 84 insertions(+), 94 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index e94fada..727ce5e 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -26,11 +26,6 @@ type SQLServerProvider struct {
 	db      xdb.DB
 	dialect Dialect
 	name    string
-
-	tables  map[string]*Table      // map of Table FQN => table
-	columns map[string]*Column     // map of Column FQN => column
-	indexes map[string]*Index      // map of Column FQN => index
-	fkeys   map[string]*ForeignKey // map of Column FQN => FK
 }
 
 // NewProvider return MS SQL reader
@@ -46,10 +41,6 @@ func NewProvider(db xdb.DB, provider string) Provider {
 	p := &SQLServerProvider{
 		db:      db,
 		name:    provider,
-		columns: make(map[string]*Column),
-		tables:  make(map[string]*Table),
-		fkeys:   make(map[string]*ForeignKey),
-		indexes: make(map[string]*Index),
 		dialect: dialect,
 	}
 
@@ -75,12 +66,16 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	}()
 
 	tt := Tables{}
+	listed := map[string]*Table{} // map of Table FQN => table
 	for rows.Next() {
 		t := new(Table)
 		if err := rows.Scan(&t.Schema, &t.Name, &t.Type); err != nil {
 			return nil, errors.WithMessagef(err, "failed to scan")
 		}
 
+		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
+		listed[t.SchemaName] = t
+
 		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, t.Schema) {
 			continue
 		}
@@ -89,7 +84,6 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			continue
 		}
 
-		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
 		tt = append(tt, t)
 	}
 
@@ -102,39 +96,13 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	}
 
 	for _, t := range tt {
-		cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
-		}
-
-		t.Columns = cc
-
-		ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
-		}
-		t.Indexes = ii
-
-		for _, idx := range ii {
-			for _, cn := range idx.ColumnNames {
-				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
-				col := r.columns[colShemaName]
-				if col == nil {
-					// the column is not visible
-					continue
-				}
-				col.Indexes = append(col.Indexes, idx)
-				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
-					t.PrimaryKey = col
-				}
-			}
+		if err := r.readTable(ctx, t); err != nil {
+			return nil, err
 		}
-
-		r.tables[t.SchemaName] = t
 	}
 
 	if withDependencies {
-		tt, err = r.discover(ctx)
+		tt, err = r.discover(ctx, tt, listed)
 		if err != nil {
 			return nil, err
 		}
@@ -147,6 +115,43 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	return tt, nil
 }
 
+// readTable reads columns and indexes of the table
+func (r *SQLServerProvider) readTable(ctx context.Context, t *Table) error {
+	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+	}
+
+	t.Columns = cc
+
+	ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
+	}
+	t.Indexes = ii
+
+	columns := make(map[string]*Column, len(cc))
+	for _, c := range cc {
+		columns[c.Name] = c
+	}
+
+	for _, idx := range ii {
+		for _, cn := range idx.ColumnNames {
+			col := columns[cn]
+			if col == nil {
+				// the column is not visible
+				continue
+			}
+			col.Indexes = append(col.Indexes, idx)
+			if idx.IsPrimary && len(idx.ColumnNames) == 1 {
+				t.PrimaryKey = col
+			}
+		}
+	}
+
+	return nil
+}
+
 // ListViews returns a list of views in database.
 // schemaName and tableNames are optional parameters to filter,
 // if not provided, then all items are returned
@@ -184,7 +189,6 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 		c.Name = columnName(c.Name)
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schemaName, tableName, c.Name)
 		c.Position = uint32(ordinal)
-		r.columns[c.SchemaName] = c
 
 		tSchemaName := fmt.Sprintf("%s.%s", schemaName, tableName)
 		t := tablesMap[tSchemaName]
@@ -244,7 +248,6 @@ func (r *SQLServerProvider) readColumnsSchema(ctx context.Context, schema, table
 		c.MaxLength = maxLength(maxLen)
 		c.Name = columnName(c.Name)
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schema, table, c.Name)
-		r.columns[c.SchemaName] = c
 
 		cc = append(cc, c)
 	}
@@ -285,7 +288,6 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 			c.ColumnNames = append(c.ColumnNames, cn)
 		}
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schema, table, c.Name)
-		r.indexes[c.SchemaName] = c
 
 		cc = append(cc, c)
 
@@ -339,7 +341,6 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 		k.Column = columnName(k.Column)
 		k.RefColumn = columnName(k.RefColumn)
 		k.SchemaName = fmt.Sprintf("%s.%s.%s", k.Schema, k.Table, k.Name)
-		r.fkeys[k.ColumnSchemaName()] = k
 
 		keys = append(keys, k)
 	}
@@ -351,70 +352,59 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 	return keys, nil
 }
 
-// discover will DFS on the graph and update internal cache with all dependencies
-func (r *SQLServerProvider) discover(ctx context.Context) (Tables, error) {
-	_, err := r.ListForeignKeys(ctx, nil, nil)
+// discover adds the tables that are reachable through foreign keys,
+// listed provides all known tables
+func (r *SQLServerProvider) discover(ctx context.Context, tt Tables, listed map[string]*Table) (Tables, error) {
+	keys, err := r.ListForeignKeys(ctx, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 
-	// the cache now consists of Tables, Columns and FKeys
-	for n, c := range r.columns {
-		fk := r.fkeys[n]
-		if fk == nil {
-			continue
-		}
-		c.Ref = fk
-
-		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to discover: %s.%s", fk.RefSchema, c.Ref.RefTable)
-		}
-	}
-
-	// return all discovered tables
-	res := Tables{}
-	for _, t := range r.tables {
-		res = append(res, t)
-	}
-
-	return res, nil
-}
+	sort.Slice(keys, func(i, j int) bool {
+		return keys[i].SchemaName < keys[j].SchemaName
+	})
 
-func (r *SQLServerProvider) discoverTable(ctx context.Context, schema, table string) error {
-	tref := fmt.Sprintf("%s.%s", schema, table)
-	if r.tables[tref] != nil {
-		return nil
+	fkeys := map[string]ForeignKeys{} // map of Column FQN => FK
+	for _, k := range keys {
+		fkeys[k.ColumnSchemaName()] = append(fkeys[k.ColumnSchemaName()], k)
 	}
 
-	t := &Table{
-		Name:       table,
-		Schema:     schema,
-		SchemaName: fmt.Sprintf("%s.%s", schema, table),
-	}
-	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
-	if err != nil {
-		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+	found := map[string]bool{}
+	for _, t := range tt {
+		found[t.SchemaName] = true
 	}
 
-	t.Columns = cc
-	r.tables[t.SchemaName] = t
-
-	// traverse columns
-	for _, c := range cc {
-		fk := r.fkeys[c.SchemaName]
-		if fk == nil {
-			continue
-		}
-		c.Ref = fk
+	// the list grows while it is traversed
+	for i := 0; i < len(tt); i++ {
+		for _, c := range tt[i].Columns {
+			for _, fk := range fkeys[c.SchemaName] {
+				if c.Ref == nil {
+					c.Ref = fk
+				}
 
-		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
-		if err != nil {
-			return err
+				tref := fmt.Sprintf("%s.%s", fk.RefSchema, fk.RefTable)
+				if found[tref] {
+					continue
+				}
+				found[tref] = true
+
+				t := listed[tref]
+				if t == nil {
+					t = &Table{
+						Name:       fk.RefTable,
+						Schema:     fk.RefSchema,
+						SchemaName: tref,
+					}
+				}
+				if err := r.readTable(ctx, t); err != nil {
+					return nil, errors.WithMessagef(err, "failed to discover: %s", tref)
+				}
+				tt = append(tt, t)
+			}
 		}
 	}
 
-	return nil
+	return tt, nil
 }
 
 func columnName(s string) string {
-- 
2.43.0


From 9235bdb0c62c46518d0e8a31ed7ff5ae8bb1bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 16/53] fix: listing columns passes schema and table names as
 arguments

---
 schema/postgres.go  | 11 +++++------
 schema/sqlserver.go |  8 +++-----
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index de05444..e35912e 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -33,14 +32,14 @@ func (p postgres) QueryTables(ctx context.Context) (*sql.Rows, error) {
 }
 
 func (p postgres) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
+	qry := `
 	SELECT column_name, data_type, udt_name, is_nullable, character_maximum_length, ordinal_position 
   	FROM information_schema.columns
- 	WHERE table_schema = '%s'
-   	AND table_name = '%s';
-`, schema, table)
+ 	WHERE table_schema = $1
+   	AND table_name = $2;
+`
 
-	return p.db.QueryContext(ctx, qry)
+	return p.db.QueryContext(ctx, qry, schema, table)
 }
 
 const postgresQueryViews = `
diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index efef608..b7ec64d 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -41,11 +40,10 @@ func (p sqlserver) QueryTables(ctx context.Context) (*sql.Rows, error) {
 }
 
 func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
-	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA=N'%s' AND TABLE_NAME = N'%s'`,
-		schema, table)
+	qry := `
+	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA=@schema AND TABLE_NAME = @table`
 
-	return p.db.QueryContext(ctx, qry)
+	return p.db.QueryContext(ctx, qry, sql.Named("schema", schema), sql.Named("table", table))
 }
 
 const mssqlQueryViews = `
-- 
2.43.0


From 3e4736bdce353a5365e0c266fa4678789b12738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 17/53] fix: SQL Server tables with extended properties are
 listed, once

---
 schema/sqlserver.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index b7ec64d..22cf170 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -22,13 +22,16 @@ const mssqlTableNamesWithSchema = `
 	INNER JOIN
 		sys.schemas s
 	ON	s.schema_id = t.schema_id
-	LEFT JOIN
-		sys.extended_properties ep
-	ON	ep.major_id = t.[object_id]
 	WHERE
 		t.is_ms_shipped = 0 AND
-		(ep.class_desc IS NULL OR (ep.class_desc <> 'OBJECT_OR_COLUMN' AND
-			ep.[name] <> 'microsoft_database_tools_support'))
+		NOT EXISTS (
+			SELECT 1
+			FROM sys.extended_properties ep
+			WHERE ep.major_id = t.[object_id] AND
+				ep.minor_id = 0 AND
+				ep.class_desc = 'OBJECT_OR_COLUMN' AND
+				ep.[name] = 'microsoft_database_tools_support'
+		)
 	ORDER BY
 		schema_name(t.schema_id),
 		t.name,
-- 
2.43.0


From dafae08378d7a6c30f6993e729ff1e9644e438e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 18/53] fix: a SQL Server table is not listed as a view for a
 view of the same name in another schema

---
 schema/sqlserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 22cf170..8e6f898 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -51,7 +51,7 @@ func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql
 
 const mssqlQueryViews = `
 SELECT TABLE_SCHEMA, TABLE_NAME, COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS s
-JOIN sys.views v ON v.name = s.TABLE_NAME;
+JOIN sys.views v ON v.name = s.TABLE_NAME AND SCHEMA_NAME(v.schema_id) = s.TABLE_SCHEMA;
 `
 
 func (p sqlserver) QueryViews(ctx context.Context) (*sql.Rows, error) {
-- 
2.43.0


From 147df543503ee42067ae1b8218647b48e983b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 19/53] fix: indexes and their columns are listed in a defined
 order

---
 schema/postgres.go  | 2 +-
 schema/sqlserver.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index e35912e..7f5be66 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -69,7 +69,7 @@ SELECT
 	i.relname as index_name,
 	ix.indisprimary as is_pk,
 	ix.indisunique as is_unique,
-	array_to_string(array_agg(a.attname), ',') as column_names
+	array_to_string(array_agg(a.attname ORDER BY a.attnum), ',') as column_names
 FROM
 	pg_class t,
 	pg_class i,
diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 8e6f898..580db71 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -81,7 +81,7 @@ WHERE t.is_ms_shipped <> 1
     AND t.[type] = 'U' 
 	AND t.schema_id = SCHEMA_ID(@schema) 
 	AND t.name = @table
-ORDER BY t.[name]
+ORDER BY t.[name], i.[name]
 `
 
 func (p sqlserver) QueryIndexes(ctx context.Context, schema, table string) (*sql.Rows, error) {
-- 
2.43.0


From bbe6fc68581de1ce7465abf8ea813d805ebb72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 20/53] fix: Postgres foreign keys of equal names or of several
 columns are not mixed up

---
 schema/postgres.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index 7f5be66..0f25424 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -97,22 +97,34 @@ func (p postgres) QueryIndexes(ctx context.Context, schema, table string) (*sql.
 	return p.db.QueryContext(ctx, postgresQueryIndexes, schema, table)
 }
 
+// Constraint names are unique only within a table,
+// therefore the columns are matched by the constraint itself.
 const postgresQueryForeignKeys = `
 SELECT
-    tc.constraint_name, 
-	tc.table_schema,
-    tc.table_name, 
-    kcu.column_name, 
-    ccu.table_schema AS foreign_table_schema,
-    ccu.table_name AS foreign_table_name,
-    ccu.column_name AS foreign_column_name 
-FROM information_schema.table_constraints AS tc 
-JOIN information_schema.key_column_usage AS kcu
-    ON tc.constraint_name = kcu.constraint_name
-    AND tc.table_schema = kcu.table_schema
-JOIN information_schema.constraint_column_usage AS ccu
-    ON ccu.constraint_name = tc.constraint_name
-WHERE tc.constraint_type = 'FOREIGN KEY';
+	con.conname AS constraint_name,
+	ns.nspname AS table_schema,
+	t.relname AS table_name,
+	a.attname AS column_name,
+	fns.nspname AS foreign_table_schema,
+	ft.relname AS foreign_table_name,
+	fa.attname AS foreign_column_name
+FROM pg_constraint AS con
+CROSS JOIN LATERAL unnest(con.conkey, con.confkey) AS k(attnum, fattnum)
+JOIN pg_class AS t
+	ON t.oid = con.conrelid
+JOIN pg_namespace AS ns
+	ON ns.oid = t.relnamespace
+JOIN pg_attribute AS a
+	ON a.attrelid = t.oid
+	AND a.attnum = k.attnum
+JOIN pg_class AS ft
+	ON ft.oid = con.confrelid
+JOIN pg_namespace AS fns
+	ON fns.oid = ft.relnamespace
+JOIN pg_attribute AS fa
+	ON fa.attrelid = ft.oid
+	AND fa.attnum = k.fattnum
+WHERE con.contype = 'f';
 `
 
 func (p postgres) QueryForeignKeys(ctx context.Context) (*sql.Rows, error) {
-- 
2.43.0


From f0b0df8d281fdd30a9061676b52a04e1e359c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 21/53] fix: Postgres indexes of equal names in different
 schemas are not mixed up

---
 schema/postgres.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/postgres.go b/schema/postgres.go
index 0f25424..c80b800 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -75,6 +75,7 @@ FROM
 	pg_class i,
 	pg_index ix,
 	pg_attribute a,
+	pg_namespace ns,
 	pg_indexes ixs
 WHERE
 	t.oid = ix.indrelid
@@ -82,6 +83,9 @@ WHERE
 	and a.attrelid = t.oid
 	and a.attnum = ANY(ix.indkey)
 	and t.relkind = 'r'
+	and ns.oid = t.relnamespace
+	and ns.nspname = ixs.schemaname
+	and t.relname = ixs.tablename
 	and ixs.indexname = i.relname
 	and ixs.schemaname = $1
 	and ixs.tablename = $2
-- 
2.43.0


From 9e3c69718e23b7dcede4bcb7df65498ed88cd225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 22/53] fix: reading an ID does not write to the value its
 copies share

---
 id.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/id.go b/id.go
index fdff646..66f4f1d 100644
--- a/id.go
+++ b/id.go
@@ -5,6 +5,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/cockroachdb/errors"
 	"github.com/lib/pq"
@@ -407,8 +408,9 @@ func (v ID32) Value() (driver.Value, error) {
 }
 
 type idptr struct {
-	id  uint64
-	str string
+	id   uint64
+	str  string
+	once sync.Once
 }
 
 func (v *idptr) val() uint64 {
@@ -422,9 +424,12 @@ func (v *idptr) String() string {
 	if v == nil {
 		return ""
 	}
-	if v.id != 0 && v.str == "" {
-		v.str = IDString(v.id)
-	}
+	// copies of the ID share the pointer
+	v.once.Do(func() {
+		if v.id != 0 && v.str == "" {
+			v.str = IDString(v.id)
+		}
+	})
 	return v.str
 }
 
-- 
2.43.0


From e3c31633fd5e33c711464524a3cc61a0ef5a0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 23/53] fix: TableInfo.AllColumns can be called concurrently

---
 schema/schema.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index e5e0ba1..d4fe58a 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -27,8 +27,6 @@ type TableInfo struct {
 
 	// SchemaName is FQN in schema.name format
 	SchemaName string `json:"-" yaml:"-"`
-
-	allColumns string `json:"-" yaml:"-"`
 }
 
 // From starts FROM expression
@@ -76,10 +74,7 @@ func (t *TableInfo) SelectAliased(prefix string, nullColumns map[string]bool) xs
 
 // AllColumns returns list of all columns separated by comma
 func (t *TableInfo) AllColumns() string {
-	if t.allColumns == "" {
-		t.allColumns = strings.Join(t.Columns, ", ")
-	}
-	return t.allColumns
+	return strings.Join(t.Columns, ", ")
 }
 
 // AliasedColumns returns list of columns separated by comma,
-- 
2.43.0


From 5e0efd08870990faf102509e45d0a7a6ba0ac91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 24/53] fix: adding to a list of IDs does not write to memory
 shared with its copies

---
 id.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/id.go b/id.go
index 66f4f1d..884e7d1 100644
--- a/id.go
+++ b/id.go
@@ -187,7 +187,7 @@ type IDArray []ID
 func NewIDArray(vals []uint64) IDArray {
 	var ids IDArray
 	for _, id := range vals {
-		ids = ids.Add(NewID(id))
+		ids = ids.add(NewID(id))
 	}
 	return ids
 }
@@ -198,7 +198,7 @@ func IDArrayFromStrings(vals []string) IDArray {
 	for _, val := range vals {
 		id, err := ParseID(val)
 		if err == nil {
-			ids = ids.Add(id)
+			ids = ids.add(id)
 		}
 	}
 	return ids
@@ -273,6 +273,11 @@ func (n IDArray) List() []uint64 {
 
 // Add returns new list
 func (n IDArray) Add(id ID) IDArray {
+	// do not write to the spare capacity: other copies of the list share it
+	return n[:len(n):len(n)].add(id)
+}
+
+func (n IDArray) add(id ID) IDArray {
 	for _, v := range n {
 		if v.UInt64() == id.UInt64() {
 			return n
@@ -286,8 +291,9 @@ func (n IDArray) Concat(other IDArray) IDArray {
 	if len(other) < len(n) {
 		return other.Concat(n)
 	}
+	n = n[:len(n):len(n)]
 	for _, id := range other {
-		n = n.Add(id)
+		n = n.add(id)
 	}
 	return n
 }
-- 
2.43.0


From c2ee5a70bec3fcf26cb88b3ef00c05f9e9eb4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 25/53] fix: LastID can be called beside NextID

---
 pkg/flake/flake.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/flake/flake.go b/pkg/flake/flake.go
index 9ffcd6d..8c1cd70 100644
--- a/pkg/flake/flake.go
+++ b/pkg/flake/flake.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/effective-security/xlog"
@@ -84,7 +85,7 @@ type Flake struct {
 	maxSequence uint16
 	machineID   uint16
 	firstID     uint64
-	lastID      uint64
+	lastID      atomic.Uint64
 }
 
 // NewIDGenerator returns a new Flake configured with the given Settings.
@@ -160,8 +161,9 @@ func (sf *Flake) NextID() uint64 {
 		}
 	}
 
-	sf.lastID = sf.toID()
-	return sf.lastID
+	id := sf.toID()
+	sf.lastID.Store(id)
+	return id
 }
 
 func toFlakeTime(t time.Time) int64 {
@@ -268,7 +270,7 @@ func FirstID(g IDGenerator) uint64 {
 // LastID returns the last ID generated by the generator.
 func LastID(g IDGenerator) uint64 {
 	if fl, ok := g.(*Flake); ok {
-		return fl.lastID
+		return fl.lastID.Load()
 	}
 	return 0
 }
-- 
2.43.0


From f76f8d005f11c9dda196bfa76e0543bc16f0d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 26/53] fix: notifications reach their own subscriber, and
 loops end with the notifier

Subscriptions of one notifier took notifications from one shared channel, so
each got those of the others; after Close their loops spun on the closed
channel; ending a subscription could wait forever for a reply behind
notifications that nobody received any more.
---
 pkg/notifier/listener.go | 90 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 86 insertions(+), 4 deletions(-)

diff --git a/pkg/notifier/listener.go b/pkg/notifier/listener.go
index 7740164..ce0c74d 100644
--- a/pkg/notifier/listener.go
+++ b/pkg/notifier/listener.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"io"
+	"sync"
 	"time"
 
 	"github.com/cockroachdb/errors"
@@ -40,6 +41,39 @@ type Listener interface {
 
 type listener struct {
 	listener *pq.Listener
+
+	lock   sync.Mutex
+	topics map[string]*subscription
+	// done is closed when no more notifications will come
+	done chan struct{}
+}
+
+// subscription queues the notifications of one topic for its callback
+type subscription struct {
+	lock  sync.Mutex
+	queue []*pq.Notification
+	wake  chan struct{}
+}
+
+func (s *subscription) push(n *pq.Notification) {
+	s.lock.Lock()
+	s.queue = append(s.queue, n)
+	s.lock.Unlock()
+	select {
+	case s.wake <- struct{}{}:
+	default:
+	}
+}
+
+func (s *subscription) pop() *pq.Notification {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if len(s.queue) == 0 {
+		return nil
+	}
+	n := s.queue[0]
+	s.queue = s.queue[1:]
+	return n
 }
 
 func eventCallBack(ev pq.ListenerEventType, err error) {
@@ -71,11 +105,51 @@ func NewListener(p xdb.Provider, minReconnectInterval time.Duration, maxReconnec
 
 	l := &listener{
 		listener: lp,
+		topics:   make(map[string]*subscription),
+		done:     make(chan struct{}),
 	}
+	go l.dispatch()
 
 	return l
 }
 
+// dispatch hands every notification to the subscription of its channel.
+// It never waits for a callback: until its notifications are received,
+// pq.Listener may not complete other calls.
+func (l *listener) dispatch() {
+	defer close(l.done)
+	for n := range l.listener.Notify {
+		// nil is sent after a reconnect
+		if n == nil {
+			continue
+		}
+		l.lock.Lock()
+		sub := l.topics[n.Channel]
+		l.lock.Unlock()
+		if sub != nil {
+			sub.push(n)
+		}
+	}
+}
+
+// subscribe reserves the topic, before its notifications can come
+func (l *listener) subscribe(topic string) (*subscription, error) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	if l.topics[topic] != nil {
+		return nil, pq.ErrChannelAlreadyOpen
+	}
+	sub := &subscription{wake: make(chan struct{}, 1)}
+	l.topics[topic] = sub
+	return sub, nil
+}
+
+func (l *listener) unsubscribe(topic string) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	delete(l.topics, topic)
+}
+
 func (l *listener) Close() error {
 	if l.listener != nil {
 		err := l.listener.Close()
@@ -87,19 +161,25 @@ func (l *listener) Close() error {
 }
 
 func (l *listener) Listen(ctx context.Context, topic string, callback func(n *Notification)) error {
-	err := l.listener.Listen(topic)
+	sub, err := l.subscribe(topic)
+	if err != nil {
+		return errors.Wrapf(err, "failed to listen to channel: %s", topic)
+	}
+	err = l.listener.Listen(topic)
 	if err != nil {
+		l.unsubscribe(topic)
 		return errors.Wrapf(err, "failed to listen to channel: %s", topic)
 	}
 
 	go func() {
+		defer l.unsubscribe(topic)
 		for {
 			select {
 			case <-ctx.Done():
 				logger.KV(xlog.INFO,
 					"reason", "context_done",
 					"channel", topic)
-				err = l.listener.Unlisten(topic)
+				err := l.listener.Unlisten(topic)
 				if err != nil {
 					logger.KV(xlog.ERROR,
 						"reason", "unlisten",
@@ -107,8 +187,10 @@ func (l *listener) Listen(ctx context.Context, topic string, callback func(n *No
 						"error", err.Error())
 				}
 				return
-			case n := <-l.listener.Notify:
-				if n != nil {
+			case <-l.done:
+				return
+			case <-sub.wake:
+				for n := sub.pop(); n != nil && ctx.Err() == nil; n = sub.pop() {
 					callback(parsePayload(n))
 				}
 			case <-time.After(time.Minute):
-- 
2.43.0


From ddbc61509fe0de66c50df343ff78769ed51d17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 27/53] fix: migration gives its session back

The session used to migrate a Postgres database was never released: it
stayed checked out of the caller's pool, possibly holding or waiting for the
migration lock.
---
 migrate/migrate.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index a9d8feb..e81fc9b 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -1,7 +1,9 @@
 package migrate
 
 import (
+	"context"
 	"database/sql"
+	"database/sql/driver"
 	"fmt"
 	"os"
 	"strings"
@@ -22,7 +24,7 @@ import (
 var logger = xlog.NewPackageLogger("github.com/effective-security/xdb", "migrate")
 
 // Migrate performs db migration
-func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersion int, db *sql.DB) error {
+func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersion int, db *sql.DB) (rerr error) {
 	logger.KV(xlog.INFO,
 		"provider", provider,
 		"db", dbName,
@@ -39,16 +41,29 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 		return errors.WithMessagef(err, "directory %q inaccessible", migrationsDir)
 	}
 
-	var driver database.Driver
-	var err error
+	var dbDriver database.Driver
 	switch provider {
 	case "postgres", "pgsql":
-		driver, err = postgres.WithInstance(db, &postgres.Config{})
+		ctx := context.Background()
+		conn, err := db.Conn(ctx)
+		if err != nil {
+			return errors.WithStack(err)
+		}
+		defer func() {
+			if errors.Is(rerr, migrate.ErrLockTimeout) {
+				// the session is still waiting for the lock
+				go discard(conn)
+				return
+			}
+			discard(conn)
+		}()
+		dbDriver, err = postgres.WithConnection(ctx, conn, &postgres.Config{})
 		if err != nil {
 			return errors.WithStack(err)
 		}
 	case "sqlserver":
-		driver, err = sqlserver.WithInstance(db, &sqlserver.Config{})
+		var err error
+		dbDriver, err = sqlserver.WithInstance(db, &sqlserver.Config{})
 		if err != nil {
 			return errors.WithStack(err)
 		}
@@ -59,7 +74,7 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	m, err := migrate.NewWithDatabaseInstance(
 		fmt.Sprintf("file://%s", migrationsDir),
 		provider,
-		driver)
+		dbDriver)
 	if err != nil {
 		return errors.WithStack(err)
 	}
@@ -112,6 +127,14 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	return nil
 }
 
+// discard closes the session used by a migration, instead of returning it to
+// the pool: it may hold or wait for the migration lock, and migrations may have
+// changed its settings.
+func discard(conn *sql.Conn) {
+	_ = conn.Raw(func(any) error { return driver.ErrBadConn })
+	_ = conn.Close()
+}
+
 type migrateLog struct{}
 
 func (migrateLog) Verbose() bool { return true }
-- 
2.43.0


From a0f4864e42368ffcfec980b07f82b674e25cd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 28/53] fix: a failed migration is not taken for no change

The error of a failed statement quotes the statement, so a migration whose
text contains "no change" was reported as success.
---
 migrate/migrate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index e81fc9b..8b31001 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -6,7 +6,6 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"os"
-	"strings"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/xlog"
@@ -106,7 +105,7 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	}
 
 	if err != nil {
-		if strings.Contains(err.Error(), "no change") {
+		if err == migrate.ErrNoChange {
 			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
 			return nil
 		}
-- 
2.43.0


From 23d811d9a78b709d80e189b36122e0fe059dd9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 29/53] fix: a migration that cannot be read is not applied

A read error was taken for the end of the migration and a file that had
disappeared for a migration without one: both were recorded as applied.
---
 migrate/migrate.go | 50 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index 8b31001..017fa12 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -1,10 +1,12 @@
 package migrate
 
 import (
+	"bytes"
 	"context"
 	"database/sql"
 	"database/sql/driver"
-	"fmt"
+	"io"
+	"io/fs"
 	"os"
 
 	"github.com/cockroachdb/errors"
@@ -13,11 +15,11 @@ import (
 	"github.com/golang-migrate/migrate/v4/database"
 	"github.com/golang-migrate/migrate/v4/database/postgres"
 	"github.com/golang-migrate/migrate/v4/database/sqlserver"
+	"github.com/golang-migrate/migrate/v4/source"
+	"github.com/golang-migrate/migrate/v4/source/iofs"
 
 	// register Postgres driver
 	_ "github.com/lib/pq"
-	// register file driver for migration
-	_ "github.com/golang-migrate/migrate/v4/source/file"
 )
 
 var logger = xlog.NewPackageLogger("github.com/effective-security/xdb", "migrate")
@@ -70,10 +72,13 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 		return errors.Errorf("unsupported provider: %s", provider)
 	}
 
-	m, err := migrate.NewWithDatabaseInstance(
-		fmt.Sprintf("file://%s", migrationsDir),
-		provider,
-		dbDriver)
+	src, err := iofs.New(os.DirFS(migrationsDir), ".")
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	defer src.Close()
+
+	m, err := migrate.NewWithInstance("file", wholeSource{src}, provider, dbDriver)
 	if err != nil {
 		return errors.WithStack(err)
 	}
@@ -126,6 +131,37 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	return nil
 }
 
+// wholeSource reads a migration completely before it is run. The migration
+// engine takes the end of what it could read for the end of the migration, and
+// a file that has disappeared for a migration without one.
+type wholeSource struct {
+	source.Driver
+}
+
+func (s wholeSource) ReadUp(version uint) (io.ReadCloser, string, error) {
+	return readWhole(s.Driver.ReadUp(version))
+}
+
+func (s wholeSource) ReadDown(version uint) (io.ReadCloser, string, error) {
+	return readWhole(s.Driver.ReadDown(version))
+}
+
+func readWhole(r io.ReadCloser, identifier string, err error) (io.ReadCloser, string, error) {
+	if err != nil {
+		var pe *fs.PathError
+		if errors.As(err, &pe) && pe.Op == "open" {
+			return nil, "", errors.Newf("unable to open migration: %s", err.Error())
+		}
+		return nil, "", err
+	}
+	defer r.Close()
+	body, err := io.ReadAll(r)
+	if err != nil {
+		return nil, "", errors.WithMessagef(err, "unable to read migration %q", identifier)
+	}
+	return io.NopCloser(bytes.NewReader(body)), identifier, nil
+}
+
 // discard closes the session used by a migration, instead of returning it to
 // the pool: it may hold or wait for the migration lock, and migrations may have
 // changed its settings.
-- 
2.43.0


From 3e3c7f635cee59b78586b0cf78e34140c30b22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 30/53] fix: failed open leaves nothing connected

---
 db.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db.go b/db.go
index e9bd61d..150d115 100644
--- a/db.go
+++ b/db.go
@@ -156,6 +156,7 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 
 	err = d.Ping()
 	if err != nil {
+		_ = d.Close()
 		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
 	}
 
@@ -184,11 +185,13 @@ func NewProvider(dataSource, dbName string, idGen flake.IDGenerator, migrateCfg
 
 		err = migrate.Migrate(provider, dbName, migrationsDir, migrateCfg.ForceVersion, migrateCfg.MigrateVersion, d)
 		if err != nil {
+			_ = d.Close()
 			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
 		}
 	}
 	p, err := New(provider, d, idGen)
 	if err != nil {
+		_ = d.Close()
 		return nil, errors.WithMessagef(err, "unable to create provider")
 	}
 	p.WithConnectionString(connstr)
-- 
2.43.0


From 1f58948077755f467949736838c6921a3fe12368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 31/53] fix: generated code of a schema does not repeat other
 schemas

---
 internal/cli/schema/schema.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 1a1871c..cde696a 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 
@@ -327,11 +328,18 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		schemas[t.Schema] = append(schemas[t.Schema], t)
 	}
 
+	schemaNames := make([]string, 0, len(schemas))
+	for schemaName := range schemas {
+		schemaNames = append(schemaNames, schemaName)
+	}
+	sort.Strings(schemaNames)
+
 	var err error
-	var tableInfos []*schema.TableInfo
-	var tableDefs []*tableDefinition
+	for _, schemaName := range schemaNames {
+		tables := schemas[schemaName]
+		var tableInfos []*schema.TableInfo
+		var tableDefs []*tableDefinition
 
-	for schemaName, tables := range schemas {
 		w := ctx.Writer()
 		buf := &bytes.Buffer{}
 
-- 
2.43.0


From 9ac8f210f4f3e57241905556d0ae3b00582cd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 32/53] fix: type definitions of one generation do not reach
 the next

---
 internal/cli/schema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index cde696a..1091e93 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -299,6 +299,12 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		dialect = "xsql.NoDialect"
 	}
 
+	// forget the definitions of an earlier generation
+	clear(typesMap)
+	clear(fieldNamesMap)
+	clear(tableNamesMap)
+	clear(modelWithCacheMap)
+
 	dropColumnsMap := map[string]bool{}
 	if a.TypesDef != "" {
 		var defs override
-- 
2.43.0


From ef7e65a157fef4740ddf7ba703a35ea5c2c6222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 33/53] fix: failures to write generated code are reported

---
 internal/cli/schema/schema.go | 61 ++++++++++++++---------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 1091e93..ce6d763 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -346,24 +346,10 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		var tableInfos []*schema.TableInfo
 		var tableDefs []*tableDefinition
 
-		w := ctx.Writer()
 		buf := &bytes.Buffer{}
-
-		if a.OutModel != "" {
-			_ = os.MkdirAll(a.OutModel, 0777)
-			fn := "model.gen.go"
-			if len(schemas) > 1 {
-				fn = schemaName + "_model.gen.go"
-			}
-			fn = filepath.Join(a.OutModel, fn)
-			f, err := os.OpenFile(fn, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-			if err != nil {
-				return err
-			}
-			defer func() {
-				_ = f.Close()
-			}()
-			w = f
+		filePrefix := ""
+		if len(schemas) > 1 {
+			filePrefix = schemaName + "_"
 		}
 		modelDef := &tableDefinition{
 			DB:      dbName,
@@ -433,29 +419,15 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format models: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		err = writeCode(ctx, a.OutModel, filePrefix+"model.gen.go", code)
+		if err != nil {
+			return err
+		}
 
 		var schemaHeaderCodeTemplate = template.Must(template.New("schemaHeaderCodeTemplate").Funcs(templateFuncMap).Parse(codeSchemaHeaderTemplateText))
 		var schemaCodeTemplate = template.Must(template.New("schemaCodeTemplate").Funcs(templateFuncMap).Parse(codeTableSchemaTemplateText))
 
 		buf.Reset()
-		w = ctx.Writer()
-		if a.OutSchema != "" {
-			_ = os.MkdirAll(a.OutSchema, 0777)
-			fn := "schema.gen.go"
-			if len(schemas) > 1 {
-				fn = schemaName + "_schema.gen.go"
-			}
-			fn = filepath.Join(a.OutSchema, fn)
-			f, err := os.OpenFile(fn, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-			if err != nil {
-				return err
-			}
-			defer func() {
-				_ = f.Close()
-			}()
-			w = f
-		}
 		td := schemaDefinition{
 			DB:      dbName,
 			Package: schemaPkg,
@@ -480,7 +452,24 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format schema: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		err = writeCode(ctx, a.OutSchema, filePrefix+"schema.gen.go", code)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
+
+// writeCode writes the code to a file in the folder,
+// or to the output of the command if the folder is not specified.
+func writeCode(ctx *cli.Cli, folder, fn string, code []byte) error {
+	if folder == "" {
+		_, err := ctx.Writer().Write(code)
+		return errors.WithStack(err)
+	}
+	err := os.MkdirAll(folder, 0777)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	return errors.WithStack(os.WriteFile(filepath.Join(folder, fn), code, 0666))
+}
-- 
2.43.0


From 37fe82ddfab6869439095a3d690858a6bec82327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 34/53] fix: failures to write listings are reported

---
 internal/cli/schema/schema.go | 14 ++++++++++----
 pkg/print/print.go            | 29 ++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index ce6d763..99c0f67 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -53,7 +53,9 @@ func (a *PrintColumnsCmd) Run(ctx *cli.Cli) error {
 		return err
 	}
 
-	_ = ctx.Print(res)
+	if err = ctx.Print(res); err != nil {
+		return err
+	}
 
 	if a.Views {
 		res, err = r.ListViews(ctx.Context(), a.Schema, a.Table)
@@ -61,7 +63,7 @@ func (a *PrintColumnsCmd) Run(ctx *cli.Cli) error {
 			return err
 		}
 		if len(res) > 0 {
-			_ = ctx.Print(res)
+			return ctx.Print(res)
 		}
 	}
 	return nil
@@ -100,7 +102,9 @@ func (a *PrintTablesCmd) Run(ctx *cli.Cli) error {
 		return ctx.Print(res)
 	}
 	for _, t := range res {
-		_, _ = fmt.Fprintf(w, "%s.%s\n", t.Schema, t.Name)
+		if _, err = fmt.Fprintf(w, "%s.%s\n", t.Schema, t.Name); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 
 	return nil
@@ -129,7 +133,9 @@ func (a *PrintViewsCmd) Run(ctx *cli.Cli) error {
 		return ctx.Print(res)
 	}
 	for _, t := range res {
-		_, _ = fmt.Fprintf(w, "%s.%s\n", t.Schema, t.Name)
+		if _, err = fmt.Fprintf(w, "%s.%s\n", t.Schema, t.Name); err != nil {
+			return errors.WithStack(err)
+		}
 	}
 
 	return nil
diff --git a/pkg/print/print.go b/pkg/print/print.go
index 68e6b74..b0f4ed0 100644
--- a/pkg/print/print.go
+++ b/pkg/print/print.go
@@ -16,9 +16,8 @@ func JSON(w io.Writer, value any) error {
 	if err != nil {
 		return errors.WithMessage(err, "failed to encode")
 	}
-	_, _ = w.Write(json)
-	_, _ = w.Write([]byte{'\n'})
-	return nil
+	_, err = w.Write(append(json, '\n'))
+	return errors.WithStack(err)
 }
 
 // Yaml prints value  to out
@@ -27,8 +26,8 @@ func Yaml(w io.Writer, value any) error {
 	if err != nil {
 		return errors.WithMessage(err, "failed to encode")
 	}
-	_, _ = w.Write(y)
-	return nil
+	_, err = w.Write(y)
+	return errors.WithStack(err)
 }
 
 // Object prints value to out in format
@@ -39,8 +38,24 @@ func Object(w io.Writer, format string, value any) error {
 	if format == "json" {
 		return JSON(w, value)
 	}
-	Print(w, value)
-	return nil
+	ew := &errWriter{w: w}
+	Print(ew, value)
+	return errors.WithStack(ew.err)
+}
+
+// errWriter keeps the first error of the writer, and writes nothing after it.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errWriter) Write(b []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+	n, err := e.w.Write(b)
+	e.err = err
+	return n, err
 }
 
 // Print value
-- 
2.43.0


From 98c1dfc372cf064c3f3e18911a300cb703a03a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 35/53] fix: cursors keep every digit of an ID

---
 query.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/query.go b/query.go
index 6a4cddc..2bd00df 100644
--- a/query.go
+++ b/query.go
@@ -1,9 +1,11 @@
 package xdb
 
 import (
+	"bytes"
 	"context"
 	"encoding/base64"
 	"encoding/json"
+	"strconv"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/x/values"
@@ -167,5 +169,42 @@ func DecodeCursor(cursor string) (values.MapAny, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to unmarshal cursor")
 	}
+
+	// a float64 does not hold every ID
+	dec := json.NewDecoder(bytes.NewReader(js))
+	dec.UseNumber()
+	var exact map[string]any
+	if err = dec.Decode(&exact); err != nil {
+		return nil, errors.Wrapf(err, "failed to unmarshal cursor")
+	}
+	for k, v := range exact {
+		m[k] = exactNumbers(v)
+	}
 	return m, nil
 }
+
+// exactNumbers replaces each json.Number with a float64, as json.Unmarshal
+// does, or with an int64 or uint64 where a float64 would lose digits.
+func exactNumbers(v any) any {
+	switch tv := v.(type) {
+	case json.Number:
+		const maxFloatInt = 1 << 53
+		if i, err := strconv.ParseInt(tv.String(), 10, 64); err == nil && (i > maxFloatInt || i < -maxFloatInt) {
+			return i
+		}
+		if u, err := strconv.ParseUint(tv.String(), 10, 64); err == nil && u > maxFloatInt {
+			return u
+		}
+		f, _ := tv.Float64()
+		return f
+	case []any:
+		for i := range tv {
+			tv[i] = exactNumbers(tv[i])
+		}
+	case map[string]any:
+		for k := range tv {
+			tv[k] = exactNumbers(tv[k])
+		}
+	}
+	return v
+}
-- 
2.43.0


From 4ab201567e6d2e8be969a44d5604ef2cc7cf89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 36/53] fix: UUIDs read back from Postgres

---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index c2d1f63..ae33063 100644
--- a/types.go
+++ b/types.go
@@ -374,6 +374,11 @@ func (ns *UUID) Scan(value any) error {
 	var s string
 	switch vid := value.(type) {
 	case []byte:
+		if len(vid) == 36 {
+			// Postgres returns the text of a UUID
+			s = string(vid)
+			break
+		}
 		if len(vid) != 16 {
 			return errors.Errorf("failed to parse UUID: %v", vid)
 		}
-- 
2.43.0


From e9fc91591a460ba7d4ddbea5e90d07d0cc55610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 37/53] fix: lists of strings read back from columns returned
 as bytes

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index ae33063..95aae85 100644
--- a/types.go
+++ b/types.go
@@ -146,6 +146,9 @@ func (n *Strings) Scan(value any) error {
 		return nil
 	}
 	v := fmt.Sprint(value)
+	if b, ok := value.([]byte); ok {
+		v = string(b)
+	}
 	if len(v) == 0 {
 		*n = Strings{}
 		return nil
-- 
2.43.0


From e9561325b4590550c87d2e349d73bbbe2f3827b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 38/53] fix: JSON keeps every digit of a Float

---
 types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 95aae85..699eeb7 100644
--- a/types.go
+++ b/types.go
@@ -561,7 +561,12 @@ type Float float64
 
 // MarshalJSON implements json.Marshaler interface
 func (v Float) MarshalJSON() ([]byte, error) {
-	return []byte(fmt.Sprintf("%f", v)), nil
+	s := fmt.Sprintf("%f", v)
+	if f, err := strconv.ParseFloat(s, 64); err != nil || f != float64(v) {
+		// six decimals do not hold the value
+		s = strconv.FormatFloat(float64(v), 'g', -1, 64)
+	}
+	return []byte(s), nil
 }
 
 // UnmarshalJSON implements the json.Unmarshaler interface.
-- 
2.43.0


From 6a925659a85bf0106b7022ffa40f9d48e71b2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 39/53] fix: JSON that is not a bool is not read as false

---
 types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 699eeb7..54a14a4 100644
--- a/types.go
+++ b/types.go
@@ -653,10 +653,13 @@ func (v Bool) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (v *Bool) UnmarshalJSON(data []byte) error {
 	s := strings.Trim(string(data), "\"")
-	if s == "true" || s == "1" || s == "TRUE" {
+	switch s {
+	case "true", "1", "TRUE":
 		*v = true
-	} else {
+	case "false", "0", "FALSE", "", "null", "NULL":
 		*v = false
+	default:
+		return errors.Errorf("expected bool value to unmarshal: %s", s)
 	}
 	return nil
 }
-- 
2.43.0


From fffedfe118b810669e23db1c05cee494d5facc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 40/53] fix: text that is not a time is not read as the zero
 time

---
 time.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/time.go b/time.go
index 9566ec6..9e8d449 100644
--- a/time.go
+++ b/time.go
@@ -25,7 +25,11 @@ func (ns *Time) Scan(value any) error {
 	var v sql.NullTime
 
 	if str, ok := value.(string); ok {
-		*ns = ParseTime(str)
+		t, err := parseTime(str)
+		if err != nil {
+			return errors.WithStack(err)
+		}
+		*ns = t
 		return nil
 	}
 
@@ -75,24 +79,30 @@ func FromUnixMilli(tm int64) Time {
 
 // ParseTime returns Time from RFC3339 format
 func ParseTime(val string) Time {
+	t, _ := parseTime(val)
+	return t
+}
+
+func parseTime(val string) (Time, error) {
 	if val == "" {
-		return Time{}
+		return Time{}, nil
 	}
 
 	var t time.Time
+	var err error
 	switch len(val) {
 	case len(DefaultTimeFormat):
-		t, _ = time.Parse(DefaultTimeFormat, val)
+		t, err = time.Parse(DefaultTimeFormat, val)
 	case len(time.RFC3339):
-		t, _ = time.Parse(time.RFC3339, val)
+		t, err = time.Parse(time.RFC3339, val)
 	case len(time.DateTime):
-		t, _ = time.Parse(time.DateTime, val)
+		t, err = time.Parse(time.DateTime, val)
 	case len(time.DateOnly):
-		t, _ = time.Parse(time.DateOnly, val)
+		t, err = time.Parse(time.DateOnly, val)
 	default:
-		t, _ = time.Parse(time.RFC3339Nano, val)
+		t, err = time.Parse(time.RFC3339Nano, val)
 	}
-	return Time(t.Truncate(DefaultTrucate).UTC())
+	return Time(t.Truncate(DefaultTrucate).UTC()), err
 }
 
 // UnixMilli returns t as a Unix time, the number of milliseconds elapsed since January 1, 1970 UTC.
-- 
2.43.0


From 46e55068f17afc8648fffe51f7f5b56d8a7148d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 41/53] fix: numbers beyond 32 bits are not cut to ID32 and
 Int32

---
 id.go    | 4 ++++
 types.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/id.go b/id.go
index 884e7d1..52e3982 100644
--- a/id.go
+++ b/id.go
@@ -2,6 +2,7 @@ package xdb
 
 import (
 	"database/sql/driver"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -397,6 +398,9 @@ func (v *ID32) Scan(value any) error {
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if id > math.MaxUint32 {
+		return errors.Errorf("value out of range: %v", value)
+	}
 	*v = ID32(id)
 	return nil
 }
diff --git a/types.go b/types.go
index 54a14a4..edb0632 100644
--- a/types.go
+++ b/types.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -540,6 +541,9 @@ func (v *Int32) Scan(value any) error {
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if id < math.MinInt32 || id > math.MaxInt32 {
+		return errors.Errorf("value out of range: %v", value)
+	}
 	*v = Int32(id)
 	return nil
 }
-- 
2.43.0


From c3edbcb5b74225b2d6f9b016e11d43a93d427800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 42/53] fix: quotes around a connection string are removed when
 a newline follows

---
 db.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 150d115..b27b258 100644
--- a/db.go
+++ b/db.go
@@ -123,8 +123,8 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 		return nil, "", "", errors.WithMessagef(err, "failed to load config")
 	}
 
-	ds = strings.Trim(ds, "\"")
 	ds = strings.TrimSpace(ds)
+	ds = strings.Trim(ds, "\"")
 
 	source, err := ParseConnectionString(ds)
 	if err != nil {
@@ -216,8 +216,8 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to load config")
 	}
-	ds = strings.Trim(ds, "\"")
 	ds = strings.TrimSpace(ds)
+	ds = strings.Trim(ds, "\"")
 
 	u, err := url.Parse(ds)
 	if err != nil {
-- 
2.43.0


From c4a37ef1b4b15e144c197262cd5a5e5262ad93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 43/53] fix: the selected database replaces the one of the
 connection string

---
 db.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/db.go b/db.go
index b27b258..97300a2 100644
--- a/db.go
+++ b/db.go
@@ -132,18 +132,27 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	}
 
 	if database != "" {
+		u, err := url.Parse(ds)
+		if err != nil {
+			return nil, source.Driver, ds, errors.WithMessagef(err, "failed to parse DB connection string")
+		}
+		q := u.Query()
+		for k := range q {
+			if strings.EqualFold(k, "database") || k == "dbname" {
+				q.Del(k)
+			}
+		}
 		switch source.Driver {
 		case "sqlserver":
-			ds = ds + "&database=" + database
+			q.Set("database", database)
 		case "postgres":
-			if strings.Contains(ds, "host=") {
-				ds = ds + " dbname=" + database
-			} else {
-				ds = ds + "&dbname=" + database
-			}
+			u.Path, u.RawPath = "", ""
+			q.Set("dbname", database)
 		default:
 			return nil, source.Driver, ds, errors.Errorf("unsuppoprted driver %q", source.Driver)
 		}
+		u.RawQuery = q.Encode()
+		ds = u.String()
 	}
 
 	d, err := sql.Open(source.Driver, ds)
-- 
2.43.0


From 1f959f542f408cf5ceff79f47ea2fce08b744397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 44/53] fix: ParseConnectionString finds the database of the
 path and the user of the parameters

---
 db.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/db.go b/db.go
index 97300a2..6eb9962 100644
--- a/db.go
+++ b/db.go
@@ -247,6 +247,13 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	for k := range q {
 		s.Params[k] = q.Get(k)
 	}
+	switch s.Driver {
+	case "postgres":
+		s.Database = values.StringsCoalesce(s.Database, strings.TrimPrefix(u.Path, "/"))
+	case "sqlserver":
+		s.User = values.StringsCoalesce(s.User, q.Get("user id"))
+		s.Password = values.StringsCoalesce(s.Password, q.Get("password"))
+	}
 
 	return s, nil
 }
-- 
2.43.0


From 4fb15807449754e519ec9607f6fa038ae1a1a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 45/53] fix: malformed connection strings are rejected

---
 db.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db.go b/db.go
index 6eb9962..36e5fe3 100644
--- a/db.go
+++ b/db.go
@@ -232,7 +232,13 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to parse DB connection string")
 	}
-	q := u.Query()
+	if u.Scheme == "" || u.Opaque != "" {
+		return nil, errors.Errorf("failed to parse DB connection string: expected driver://host")
+	}
+	q, err := url.ParseQuery(u.RawQuery)
+	if err != nil {
+		return nil, errors.WithMessagef(err, "failed to parse parameters of DB connection string")
+	}
 	s := &Source{
 		Source:   ds,
 		Driver:   u.Scheme,
-- 
2.43.0


From a7fcfcb3c00d72ec56e212d1450c640217d7c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 46/53] fix: models read SQL Server tinyint columns into uint8,
 which holds all their values

---
 internal/cli/schema/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cli/schema/types.go b/internal/cli/schema/types.go
index 3ace554..c01f856 100644
--- a/internal/cli/schema/types.go
+++ b/internal/cli/schema/types.go
@@ -32,7 +32,7 @@ var typeByColumnType = map[string]string{
 	"int":      "int32",
 	"int2":     "int16",
 	"smallint": "int16",
-	"tinyint":  "int8",
+	"tinyint":  "uint8",
 
 	"decimal": "float64",
 	"numeric": "float64",
-- 
2.43.0


From 752990368dec6c3539c775b357afbbff6d7163d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:11 +0000
Subject: [PATCH 47/53] fix: merging an update without a time does not clear
 time.Time fields

---
 merge.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/merge.go b/merge.go
index 70a64de..df9e30e 100644
--- a/merge.go
+++ b/merge.go
@@ -2,6 +2,7 @@ package xdb
 
 import (
 	"reflect"
+	"time"
 
 	"dario.cat/mergo"
 )
@@ -11,6 +12,7 @@ type transformers struct {
 
 var (
 	typeOfDate       = reflect.TypeOf(Time{})
+	typeOfTime       = reflect.TypeOf(time.Time{})
 	typeOfID         = reflect.TypeOf(ID{})
 	typeOfNULLString = reflect.TypeOf(NULLString(""))
 )
@@ -27,6 +29,16 @@ func (t transformers) Transformer(typ reflect.Type) func(dst, src reflect.Value)
 			}
 			return nil
 		}
+	case typeOfTime:
+		return func(dst, src reflect.Value) error {
+			if dst.CanSet() {
+				val := src.Interface().(time.Time)
+				if !val.IsZero() {
+					dst.Set(src)
+				}
+			}
+			return nil
+		}
 	case typeOfID:
 		return func(dst, src reflect.Value) error {
 			if dst.CanSet() {
-- 
2.43.0


From 1fb568bf636e4a9e77e74bd7615d22b6075d0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 48/53] fix: a query without a limit announces no further page

---
 query.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 2bd00df..6a38ab2 100644
--- a/query.go
+++ b/query.go
@@ -95,7 +95,8 @@ func ExecuteQueryWithPagination[T any, TPointer RowPointer[T]](ctx context.Conte
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	// without a limit there is only one page
+	hasNextPage := limit > 0 && count >= limit
 	nextOffset := values.Select(hasNextPage, offset+count, 0)
 
 	res.SetResult(list, hasNextPage, nextOffset)
@@ -128,7 +129,8 @@ func ExecuteQueryWithCursor[T any, TPointer RowPointer[T]](ctx context.Context,
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	// without a limit there is only one page
+	hasNextPage := limit > 0 && count >= limit
 
 	res.SetResultWithCursor(list, hasNextPage, cursor)
 
-- 
2.43.0


From bf3799104b343a9c84792e342778e1b1c768afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 49/53] fix: indexes of partitioned Postgres tables are listed

---
 schema/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index c80b800..c52d2ed 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -82,7 +82,7 @@ WHERE
 	and i.oid = ix.indexrelid
 	and a.attrelid = t.oid
 	and a.attnum = ANY(ix.indkey)
-	and t.relkind = 'r'
+	and t.relkind IN ('r', 'p')
 	and ns.oid = t.relnamespace
 	and ns.nspname = ixs.schemaname
 	and t.relname = ixs.tablename
-- 
2.43.0


From ddaaf5f01001cc12497a5f214d3de5e79768486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 50/53] fix: Postgres indexes on expressions only are listed

---
 schema/postgres.go | 25 ++++++++++---------------
 schema/provider.go |  8 +++++---
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index c52d2ed..d4f2b7e 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -71,22 +71,17 @@ SELECT
 	ix.indisunique as is_unique,
 	array_to_string(array_agg(a.attname ORDER BY a.attnum), ',') as column_names
 FROM
-	pg_class t,
-	pg_class i,
-	pg_index ix,
-	pg_attribute a,
-	pg_namespace ns,
-	pg_indexes ixs
+	pg_class t
+	JOIN pg_index ix ON t.oid = ix.indrelid
+	JOIN pg_class i ON i.oid = ix.indexrelid
+	JOIN pg_namespace ns ON ns.oid = t.relnamespace
+	JOIN pg_indexes ixs ON ns.nspname = ixs.schemaname
+		and t.relname = ixs.tablename
+		and ixs.indexname = i.relname
+	LEFT JOIN pg_attribute a ON a.attrelid = t.oid
+		and a.attnum = ANY(ix.indkey)
 WHERE
-	t.oid = ix.indrelid
-	and i.oid = ix.indexrelid
-	and a.attrelid = t.oid
-	and a.attnum = ANY(ix.indkey)
-	and t.relkind IN ('r', 'p')
-	and ns.oid = t.relnamespace
-	and ns.nspname = ixs.schemaname
-	and t.relname = ixs.tablename
-	and ixs.indexname = i.relname
+	t.relkind IN ('r', 'p')
 	and ixs.schemaname = $1
 	and ixs.tablename = $2
 GROUP BY
diff --git a/schema/provider.go b/schema/provider.go
index 727ce5e..f8d31b5 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -283,9 +283,11 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 		}
 
 		c.Name = columnName(c.Name)
-		for _, cn := range strings.Split(columnNames, ",") {
-			cn = columnName(cn)
-			c.ColumnNames = append(c.ColumnNames, cn)
+		if columnNames != "" { // an index may have expressions only
+			for _, cn := range strings.Split(columnNames, ",") {
+				cn = columnName(cn)
+				c.ColumnNames = append(c.ColumnNames, cn)
+			}
 		}
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schema, table, c.Name)
 
-- 
2.43.0


From cd920d93e9486892719b1d927935b95246428331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:13 +0000
Subject: [PATCH 51/53] fix: Open with a database keeps connection strings that
 have neither user nor host

---
 db.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db.go b/db.go
index 36e5fe3..d71a8d2 100644
--- a/db.go
+++ b/db.go
@@ -152,7 +152,9 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 			return nil, source.Driver, ds, errors.Errorf("unsuppoprted driver %q", source.Driver)
 		}
 		u.RawQuery = q.Encode()
-		ds = u.String()
+		// String leaves "//" out when there is neither user nor host
+		rest := strings.TrimPrefix(u.String(), u.Scheme+":")
+		ds = u.Scheme + "://" + strings.TrimPrefix(rest, "//")
 	}
 
 	d, err := sql.Open(source.Driver, ds)
-- 
2.43.0


From f72554e9af96856fb250944b60853714a36c96f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:13 +0000
Subject: [PATCH 52/53] fix: ParseConnectionString reads the Postgres user and
 password given as parameters

---
 db.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db.go b/db.go
index d71a8d2..4c417ce 100644
--- a/db.go
+++ b/db.go
@@ -258,6 +258,8 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	switch s.Driver {
 	case "postgres":
 		s.Database = values.StringsCoalesce(s.Database, strings.TrimPrefix(u.Path, "/"))
+		s.User = values.StringsCoalesce(s.User, q.Get("user"))
+		s.Password = values.StringsCoalesce(s.Password, q.Get("password"))
 	case "sqlserver":
 		s.User = values.StringsCoalesce(s.User, q.Get("user id"))
 		s.Password = values.StringsCoalesce(s.Password, q.Get("password"))
-- 
2.43.0


From fdfd8652fa75a7bb3d694e0019b11eebd12954c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:13 +0000
Subject: [PATCH 53/53] fix: ParseConnectionString reads the parameters of SQL
 Server in any case

---
 db.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 4c417ce..d898ba1 100644
--- a/db.go
+++ b/db.go
@@ -261,8 +261,17 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 		s.User = values.StringsCoalesce(s.User, q.Get("user"))
 		s.Password = values.StringsCoalesce(s.Password, q.Get("password"))
 	case "sqlserver":
-		s.User = values.StringsCoalesce(s.User, q.Get("user id"))
-		s.Password = values.StringsCoalesce(s.Password, q.Get("password"))
+		// the names of its parameters are case-insensitive
+		for k := range q {
+			switch strings.ToLower(k) {
+			case "database":
+				s.Database = values.StringsCoalesce(s.Database, q.Get(k))
+			case "user id":
+				s.User = values.StringsCoalesce(s.User, q.Get(k))
+			case "password":
+				s.Password = values.StringsCoalesce(s.Password, q.Get(k))
+			}
+		}
 	}
 
 	return s, nil
-- 
2.43.0

