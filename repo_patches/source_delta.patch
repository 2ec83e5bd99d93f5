From 1b1b5f57337e0f96325d54e233d24b04f4c9b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 01/25] fix: keep the caller's grouping of and/or/not in
 generated SQL

---
 butane_core/src/db/helper.rs | 49 ++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b141d48..88ba4b3 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -68,10 +68,14 @@ where
             Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
+                // The conjunction of no conditions is always true
+                if conds.is_empty() {
+                    write!(w, "TRUE").unwrap();
+                    return;
+                }
                 let mut remaining = conds.len();
                 for cond in conds {
-                    // future perf improvement: figure out a clean way to avoid the extra boxing
-                    f(Condition(Box::new(cond)), values, pls, w);
+                    sql_for_conjunct(cond, &f, values, pls, w);
                     if remaining > 1 {
                         write!(w, " AND ").unwrap();
                         remaining -= 1;
@@ -80,9 +84,9 @@ where
                 Ok(())
             }
             And(a, b) => {
-                f(Condition(a), values, pls, w);
+                sql_for_conjunct(*a, &f, values, pls, w);
                 write!(w, " AND ").unwrap();
-                f(Condition(b), values, pls, w);
+                sql_for_conjunct(*b, &f, values, pls, w);
                 Ok(())
             }
             Or(a, b) => {
@@ -91,7 +95,11 @@ where
                 f(Condition(b), values, pls, w);
                 Ok(())
             }
-            Not(a) => write!(w, "NOT ").and_then(|_| Ok(f(Condition(a), values, pls, w))),
+            Not(a) => {
+                write!(w, "NOT (").unwrap();
+                f(Condition(a), values, pls, w);
+                write!(w, ")")
+            }
             Subquery {
                 col,
                 tbl2,
@@ -144,6 +152,37 @@ where
     .unwrap()
 }
 
+/// Writes to `w` the SQL of one operand of a conjunction, parenthesized if
+/// `AND` would otherwise bind more tightly than the operand's own operator.
+fn sql_for_conjunct<F, P, W>(
+    cond: query::BoolExpr,
+    f: &F,
+    values: &mut Vec<SqlVal>,
+    pls: &mut P,
+    w: &mut W,
+) where
+    F: Fn(Expr, &mut Vec<SqlVal>, &mut P, &mut W),
+    P: PlaceholderSource,
+    W: Write,
+{
+    // A conjunction of one condition stands for that condition
+    let mut inner = &cond;
+    while let AllOf(conds) = inner {
+        match conds.as_slice() {
+            [only] => inner = only,
+            _ => break,
+        }
+    }
+    // future perf improvement: figure out a clean way to avoid the extra boxing
+    if matches!(inner, Or(_, _)) {
+        write!(w, "(").unwrap();
+        f(Condition(Box::new(cond)), values, pls, w);
+        write!(w, ")").unwrap();
+    } else {
+        f(Condition(Box::new(cond)), values, pls, w);
+    }
+}
+
 pub fn sql_select(columns: &[Column], table: &str, w: &mut impl Write) {
     write!(w, "SELECT ").unwrap();
     list_columns(columns, w);
-- 
2.43.0


From 5fb9626eb00ca82f5b43315d30248c9c28151ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 02/25] fix: membership in an empty list is false rather than
 invalid SQL

---
 butane_core/src/db/helper.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 88ba4b3..171c1bd 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -135,6 +135,10 @@ where
                 write!(w, ")").unwrap();
                 Ok(())
             }
+            In(_, vals) if vals.is_empty() => {
+                // Nothing is in the empty set, but `IN ()` is not portable SQL
+                write!(w, "FALSE")
+            }
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
-- 
2.43.0


From d1d1effe146c3f96df195bc1a7751571b51236ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:32 +0000
Subject: [PATCH 03/25] fix: allow more than 127 parameters in a PostgreSQL
 query

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ce1accb..a63ab9a 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -935,7 +935,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
 
 #[derive(Debug)]
 struct PgPlaceholderSource {
-    n: i8,
+    n: u32,
 }
 impl PgPlaceholderSource {
     fn new() -> Self {
-- 
2.43.0


From ef78c28e56ffd5f65e558b9b7b6042b3fb1b9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 04/25] fix: support relation lookups in bulk deletes on turso

---
 butane_core/src/db/turso.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 38635c5..a78c6a3 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -544,6 +544,8 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
+        // Transform Subquery expressions since Turso doesn't support them
+        let expr = self.transform_subqueries(expr).await?;
         let mut sql = format!("DELETE FROM {}", helper::quote_reserved_word(table));
         let mut values: Vec<SqlVal> = Vec::new();
         sql.write_str(" WHERE ").unwrap();
-- 
2.43.0


From cb359823c5a4d1a5955af5aed29df529e7d5653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 05/25] fix: roll back a dropped turso transaction without a
 tokio runtime

---
 butane_core/src/db/turso.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index a78c6a3..0027cab 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -732,27 +732,31 @@ impl<'c> Drop for TursoTransaction<'c> {
     fn drop(&mut self) {
         if let Some(conn) = self.conn.take() {
             if !self.committed {
-                // If transaction was not committed or rolled back, roll it back
-                // Use block_in_place to execute async rollback in a sync Drop context
-                if tokio::runtime::Handle::try_current().is_ok() {
-                    let conn_clone = conn.conn.clone();
-                    let _ = tokio::task::block_in_place(|| {
-                        tokio::runtime::Handle::current().block_on(async move {
-                            conn_clone
-                                .execute("ROLLBACK", Vec::<turso::Value>::new())
-                                .await
-                        })
-                    });
-                } else {
-                    eprintln!(
-                        "Warning: TursoTransaction dropped without commit or rollback and no tokio runtime available"
-                    );
+                // If transaction was not committed or rolled back, roll it back.
+                // Turso performs its I/O while being polled, so this works in a sync Drop
+                // context without any async runtime.
+                let rollback = conn.conn.execute("ROLLBACK", Vec::<turso::Value>::new());
+                #[allow(unused_variables)] // used only when logging is enabled
+                if let Err(e) = poll_to_completion(rollback) {
+                    crate::error!("Failed to roll back dropped transaction: {e}");
                 }
             }
         }
     }
 }
 
+/// Drive a future which makes progress by being polled to completion on this thread.
+fn poll_to_completion<F: std::future::Future>(future: F) -> F::Output {
+    let mut future = std::pin::pin!(future);
+    let mut context = std::task::Context::from_waker(futures_util::task::noop_waker_ref());
+    loop {
+        match future.as_mut().poll(&mut context) {
+            std::task::Poll::Ready(output) => return output,
+            std::task::Poll::Pending => std::thread::yield_now(),
+        }
+    }
+}
+
 // Value conversion functions
 fn sqlval_to_turso(val: &SqlValRef<'_>) -> turso::Value {
     use SqlValRef::*;
-- 
2.43.0


From a747939b9e2ce09c9672dc0897bcca1e1f64cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 06/25] fix: order schema changes so nothing is used before it
 exists or removed while referenced

---
 butane_core/src/migrations/adb.rs | 57 +++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 4afeb16..3bd23fd 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -624,18 +624,29 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
         let table = old.tables.get(removed).expect("no table").clone();
         ops.push(Operation::RemoveTableConstraints(table));
     }
-    for removed in removed_tables {
-        ops.push(Operation::RemoveTable((*removed).to_string()));
-    }
 
-    // Change existing tables
+    // Change existing tables. A column must exist before another refers to it and may only be
+    // removed once no other does, so order the changes across all of the tables.
+    let mut changes = TableChanges::default();
     for table in new_names.intersection(&old_names) {
         let table: &str = table.as_ref();
-        ops.append(&mut diff_table(
+        diff_table(
             old.tables.get(table).expect("no table"),
             new.tables.get(table).expect("no table"),
-        ));
+            &mut changes,
+        );
+    }
+    ops.append(&mut changes.add);
+    ops.append(&mut changes.add_referring);
+    ops.append(&mut changes.change);
+    ops.append(&mut changes.remove_referring);
+    ops.append(&mut changes.remove);
+
+    // Nothing refers to the removed tables any more
+    for removed in removed_tables {
+        ops.push(Operation::RemoveTable((*removed).to_string()));
     }
+
     for added in new_tables {
         let added: &str = added.as_ref();
         let table = new.tables.get(added).expect("no table");
@@ -650,8 +661,17 @@ fn col_by_name<'a>(columns: &'a [AColumn], name: &str) -> Option<&'a AColumn> {
     columns.iter().find(|c| c.name == name)
 }
 
-fn diff_table(old: &ATable, new: &ATable) -> Vec<Operation> {
-    let mut ops: Vec<Operation> = Vec::new();
+/// Changes to the columns of existing tables, in the order in which they should be made.
+#[derive(Default)]
+struct TableChanges {
+    add: Vec<Operation>,
+    add_referring: Vec<Operation>,
+    change: Vec<Operation>,
+    remove_referring: Vec<Operation>,
+    remove: Vec<Operation>,
+}
+
+fn diff_table(old: &ATable, new: &ATable, changes: &mut TableChanges) {
     let new_names: BTreeSet<&String> = new.columns.iter().map(|c| &c.name).collect();
     let old_names: BTreeSet<&String> = old.columns.iter().map(|c| &c.name).collect();
 
@@ -659,17 +679,25 @@ fn diff_table(old: &ATable, new: &ATable) -> Vec<Operation> {
     let added_names = new_names.difference(&old_names);
     for added in added_names {
         let added: &str = added.as_ref();
-        ops.push(Operation::AddColumn(
-            new.name.clone(),
-            col_by_name(&new.columns, added).unwrap().clone(),
-        ));
+        let col = col_by_name(&new.columns, added).unwrap().clone();
+        let ops = match col.reference {
+            Some(_) => &mut changes.add_referring,
+            None => &mut changes.add,
+        };
+        ops.push(Operation::AddColumn(new.name.clone(), col));
     }
 
     // Remove columns
     for removed in old_names.difference(&new_names) {
+        let removed: &str = removed.as_ref();
+        let col = col_by_name(&old.columns, removed).unwrap();
+        let ops = match col.reference {
+            Some(_) => &mut changes.remove_referring,
+            None => &mut changes.remove,
+        };
         ops.push(Operation::RemoveColumn(
             old.name.clone(),
-            (*removed).to_string(),
+            removed.to_string(),
         ));
     }
 
@@ -681,11 +709,10 @@ fn diff_table(old: &ATable, new: &ATable) -> Vec<Operation> {
         if col == old_col {
             continue;
         }
-        ops.push(Operation::ChangeColumn(
+        changes.change.push(Operation::ChangeColumn(
             new.name.clone(),
             old_col.clone(),
             col.clone(),
         ));
     }
-    ops
 }
-- 
2.43.0


From ced37f9475b6e932d5890fb6edd56d28e6a501a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 07/25] fix: rebuild sqlite and turso tables when a key, unique
 or reference column is added or removed

ALTER TABLE ADD/DROP COLUMN cannot do it. A table referenced by others is
rebuilt with foreign keys deferred. Removed tables are dropped before other
changes where nothing that stays refers to them.
---
 butane_core/src/db/sqlite.rs      | 109 +++++++++++++++++++++++-------
 butane_core/src/db/turso.rs       |  59 ++++++++++++----
 butane_core/src/migrations/adb.rs |  30 +++++++-
 3 files changed, 160 insertions(+), 38 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ec0c987..f52c179 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -664,14 +664,25 @@ fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
         Operation::AddTable(table) => Ok(create_table(table, false)),
         Operation::AddTableConstraints(_table) => Ok("".to_owned()),
         Operation::AddTableIfNotExists(table) => Ok(create_table(table, true)),
-        Operation::RemoveTable(name) => Ok(drop_table(name)),
+        Operation::RemoveTable(name) => {
+            let drop = drop_table(name);
+            if is_referenced(current, name) {
+                // The tables which refer to it are dropped by the same migration.
+                Ok(format!("{DEFER_FOREIGN_KEYS}\n{drop}"))
+            } else {
+                Ok(drop)
+            }
+        }
         Operation::RemoveTableConstraints(_table) => Ok("".to_owned()),
-        Operation::AddColumn(tbl, col) => add_column(tbl, col),
+        Operation::AddColumn(tbl, col) => add_column(current, tbl, col),
         Operation::RemoveColumn(tbl, name) => remove_column(current, tbl, name),
         Operation::ChangeColumn(tbl, old, new) => Ok(change_column(current, tbl, old, Some(new))),
     }
 }
 
+/// Check references when the transaction commits rather than on each statement.
+const DEFER_FOREIGN_KEYS: &str = "PRAGMA defer_foreign_keys = ON;";
+
 fn create_table(table: &ATable, allow_exists: bool) -> String {
     let coldefs = table
         .columns
@@ -786,13 +797,32 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
-fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
+fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
+    let default = helper::sql_literal_value(&default)?;
+    // "ALTER TABLE ADD COLUMN" cannot add a key or a unique column, nor
+    // a reference from existing rows.
+    if col.is_pk() || col.unique() || col.reference().is_some() {
+        let old_table = current
+            .get_table(tbl_name)
+            .ok_or_else(|| Error::TableNotFound(tbl_name.to_string()))?;
+        let mut new_table = old_table.clone();
+        if col.is_pk() {
+            // There is only ever one primary key.
+            new_table.demote_pk();
+        }
+        new_table.add_column(col.clone());
+        return Ok(recreate_table(
+            current,
+            new_table,
+            Some((col.name(), default)),
+        ));
+    }
     Ok(format!(
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col),
-        helper::sql_literal_value(&default)?
+        default
     ))
 }
 
@@ -805,8 +835,9 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
         .column(name)
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
     // "ALTER TABLE b DROP COLUMN fkey;" fails due to sqlite not being
-    // able to remove the attached constraint.
-    if col.reference().is_some() {
+    // able to remove the attached constraint. The same goes for a key
+    // or a unique column.
+    if col.reference().is_some() || col.is_pk() || col.unique() {
         Ok(change_column(current, tbl_name, col, None))
     } else {
         Ok(format!(
@@ -817,11 +848,15 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     }
 }
 
-fn copy_table(old: &ATable, new: &ATable) -> String {
+/// SQL to copy the rows of `old` to `new`, with the given value for a column `old` does not have.
+fn copy_table(old: &ATable, new: &ATable, added: Option<(&str, String)>) -> String {
     let column_names = new
         .columns
         .iter()
-        .map(|col| helper::quote_reserved_word(col.name()))
+        .map(|col| match &added {
+            Some((name, value)) if *name == col.name() => Cow::Borrowed(value.as_str()),
+            _ => helper::quote_reserved_word(col.name()),
+        })
         .collect::<Vec<Cow<str>>>()
         .join(", ");
     format!(
@@ -851,27 +886,55 @@ fn change_column(
         );
         return "".to_string();
     }
-    let old_table = table.unwrap();
-    let mut new_table = old_table.clone();
-    new_table.name = tmp_table_name(&new_table.name);
+    let mut new_table = table.unwrap().clone();
     match new {
         Some(col) => new_table.replace_column(col.clone()),
         None => new_table.remove_column(old.name()),
     }
-    let stmts: [&str; 4] = [
-        &create_table(&new_table, false),
-        &copy_table(old_table, &new_table),
-        &drop_table(&old_table.name),
-        &format!(
-            "ALTER TABLE {} RENAME TO {};",
-            helper::quote_reserved_word(&new_table.name),
-            helper::quote_reserved_word(tbl_name)
-        ),
+    recreate_table(current, new_table, None)
+}
+
+/// SQL to give an existing table the definition `new_table`, keeping its rows.
+/// If a column is added, its value must be given.
+fn recreate_table(current: &mut ADB, new_table: ATable, added: Option<(&str, String)>) -> String {
+    let old_table = current
+        .get_table(&new_table.name)
+        .expect("table must exist");
+    let mut tmp_table = new_table.clone();
+    tmp_table.name = tmp_table_name(&new_table.name);
+    let mut stmts = vec![
+        create_table(&tmp_table, false),
+        copy_table(old_table, &tmp_table, added),
+        drop_table(&old_table.name),
     ];
-    let result = stmts.join("\n");
-    new_table.name.clone_from(&old_table.name);
+    let refers_to_itself = new_table
+        .columns
+        .iter()
+        .any(|col| col.refers_to(&new_table.name));
+    if refers_to_itself || is_referenced(current, &new_table.name) {
+        // References to the rows of the table must not be checked until they
+        // are back, and are only taken to be restored by inserting the rows.
+        stmts.insert(0, DEFER_FOREIGN_KEYS.to_string());
+        stmts.push(create_table(&new_table, false));
+        stmts.push(copy_table(&tmp_table, &new_table, None));
+        stmts.push(drop_table(&tmp_table.name));
+    } else {
+        stmts.push(format!(
+            "ALTER TABLE {} RENAME TO {};",
+            helper::quote_reserved_word(&tmp_table.name),
+            helper::quote_reserved_word(&new_table.name)
+        ));
+    }
     current.replace_table(new_table);
-    result
+    stmts.join("\n")
+}
+
+/// Whether any table, including itself, has a column which refers to this table.
+fn is_referenced(current: &ADB, tbl_name: &str) -> bool {
+    current
+        .tables()
+        .flat_map(|table| &table.columns)
+        .any(|col| col.refers_to(tbl_name))
 }
 
 /// Write SQL that performs an insert or update.
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 0027cab..d5bf55a 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -950,7 +950,7 @@ fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
         Operation::AddTable(tbl) => Ok(create_table(tbl, false)),
         Operation::AddTableIfNotExists(tbl) => Ok(create_table(tbl, true)),
         Operation::RemoveTable(name) => Ok(drop_table(name)),
-        Operation::AddColumn(tname, col) => add_column(tname, col),
+        Operation::AddColumn(tname, col) => add_column(current, tname, col),
         Operation::RemoveColumn(tname, colname) => remove_column(current, tname, colname),
         Operation::ChangeColumn(tname, old, new) => {
             Ok(change_column(current, tname, old, Some(new)))
@@ -1074,13 +1074,32 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
-fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
+fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
+    let default = helper::sql_literal_value(&default)?;
+    // "ALTER TABLE ADD COLUMN" cannot add a key or a unique column, nor
+    // a reference from existing rows.
+    if col.is_pk() || col.unique() || col.reference().is_some() {
+        let old_table = current
+            .get_table(tbl_name)
+            .ok_or_else(|| Error::TableNotFound(tbl_name.to_string()))?;
+        let mut new_table = old_table.clone();
+        if col.is_pk() {
+            // There is only ever one primary key.
+            new_table.demote_pk();
+        }
+        new_table.add_column(col.clone());
+        return Ok(recreate_table(
+            current,
+            new_table,
+            Some((col.name(), default)),
+        ));
+    }
     Ok(format!(
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col),
-        helper::sql_literal_value(&default)?
+        default
     ))
 }
 
@@ -1092,7 +1111,8 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     let col = table
         .column(name)
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
-    if col.reference().is_some() {
+    // "ALTER TABLE DROP COLUMN" cannot drop a column which has a constraint.
+    if col.reference().is_some() || col.is_pk() || col.unique() {
         Ok(change_column(current, tbl_name, col, None))
     } else {
         Ok(format!(
@@ -1103,11 +1123,15 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     }
 }
 
-fn copy_table(old: &ATable, new: &ATable) -> String {
+/// SQL to copy the rows of `old` to `new`, with the given value for a column `old` does not have.
+fn copy_table(old: &ATable, new: &ATable, added: Option<(&str, String)>) -> String {
     let column_names: Vec<Cow<str>> = new
         .columns
         .iter()
-        .map(|col| helper::quote_reserved_word(col.name()))
+        .map(|col| match &added {
+            Some((name, value)) if *name == col.name() => Cow::Borrowed(value.as_str()),
+            _ => helper::quote_reserved_word(col.name()),
+        })
         .collect();
 
     let column_list = column_names.join(", ");
@@ -1152,13 +1176,24 @@ fn change_column(
         );
         return "".to_string();
     }
-    let old_table = table.unwrap();
-    let mut new_table = old_table.clone();
-    new_table.name = tmp_table_name(&new_table.name);
+    let mut new_table = table.unwrap().clone();
     match new {
         Some(col) => new_table.replace_column(col.clone()),
         None => new_table.remove_column(old.name()),
     }
+    recreate_table(current, new_table, None)
+}
+
+/// SQL to give an existing table the definition `new_table`, keeping its rows.
+/// If a column is added, its value must be given.
+fn recreate_table(
+    current: &mut ADB,
+    mut new_table: ATable,
+    added: Option<(&str, String)>,
+) -> String {
+    let tbl_name = new_table.name.clone();
+    let old_table = current.get_table(&tbl_name).expect("table must exist");
+    new_table.name = tmp_table_name(&tbl_name);
     // NOTE: Turso has a known limitation with ALTER TABLE RENAME operations within transactions
     // The error "table being renamed should be in schema" occurs because libSQL's schema
     // tracking doesn't properly register tables created in the same transaction.
@@ -1166,16 +1201,16 @@ fn change_column(
     // See docs/turso-backend.md for details.
     let stmts: Vec<String> = vec![
         create_table(&new_table, false),
-        copy_table(old_table, &new_table),
+        copy_table(old_table, &new_table, added),
         drop_table(&old_table.name),
         format!(
             "ALTER TABLE {} RENAME TO {};",
             helper::quote_reserved_word(&new_table.name),
-            helper::quote_reserved_word(tbl_name)
+            helper::quote_reserved_word(&tbl_name)
         ),
     ];
     let result = stmts.join("\n");
-    new_table.name.clone_from(&old_table.name);
+    new_table.name = tbl_name;
     current.replace_table(new_table);
     result
 }
diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 3bd23fd..aa2668b 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -324,6 +324,15 @@ impl ATable {
     pub fn remove_column(&mut self, name: &str) {
         self.columns.retain(|c| c.name != name);
     }
+    /// Make no column the primary key. A column which was may still be
+    /// referred to, so it stays unique.
+    pub(crate) fn demote_pk(&mut self) {
+        for col in self.columns.iter_mut().filter(|c| c.pk) {
+            col.pk = false;
+            col.auto = false;
+            col.unique = true;
+        }
+    }
     pub fn pk(&self) -> Option<&AColumn> {
         self.columns.iter().find(|c| c.is_pk())
     }
@@ -482,6 +491,10 @@ impl AColumn {
     pub fn reference(&self) -> &Option<ARef> {
         &self.reference
     }
+    /// Return whether this column refers to a column of the named table.
+    pub(crate) fn refers_to(&self, table: &str) -> bool {
+        matches!(&self.reference, Some(ARef::Literal(literal)) if literal.table_name == table)
+    }
     /// Set another column that this column refers to.
     pub fn add_reference(&mut self, reference: &ARef) {
         self.reference = Some(reference.clone())
@@ -625,6 +638,18 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
         ops.push(Operation::RemoveTableConstraints(table));
     }
 
+    // Tables which no remaining table refers to can go now, the others only once they no longer are
+    let (still_referenced, unreferenced): (Vec<&String>, Vec<&String>) =
+        removed_tables.partition(|removed| {
+            new_names
+                .intersection(&old_names)
+                .flat_map(|name| &old.tables[*name].columns)
+                .any(|col| col.refers_to(removed))
+        });
+    for removed in unreferenced {
+        ops.push(Operation::RemoveTable(removed.clone()));
+    }
+
     // Change existing tables. A column must exist before another refers to it and may only be
     // removed once no other does, so order the changes across all of the tables.
     let mut changes = TableChanges::default();
@@ -642,9 +667,8 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
     ops.append(&mut changes.remove_referring);
     ops.append(&mut changes.remove);
 
-    // Nothing refers to the removed tables any more
-    for removed in removed_tables {
-        ops.push(Operation::RemoveTable((*removed).to_string()));
+    for removed in still_referenced {
+        ops.push(Operation::RemoveTable(removed.clone()));
     }
 
     for added in new_tables {
-- 
2.43.0


From c47eb22eb9a8e6712fd35ae27164ae9a631be1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 08/25] fix: generate PostgreSQL column changes which run

Replace the primary key when a key column is added, drop a reference before
the type of its column changes, convert values where PostgreSQL does not by
itself, create or drop the sequence when a column becomes or ceases to be
automatic, quote names of constraints, write binary defaults as bytea.
---
 butane_core/src/db/pg.rs | 160 +++++++++++++++++++++++++++++++--------
 1 file changed, 129 insertions(+), 31 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index a63ab9a..3768a88 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -697,10 +697,14 @@ fn drop_fkey_constraints(table: &ATable, column: &AColumn) -> Result<String> {
     change_column(table, column, &modified_column)
 }
 fn col_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
+    sqltype_for_col(col, col.is_auto())
+}
+
+fn sqltype_for_col(col: &AColumn, auto: bool) -> Result<Cow<'_, str>> {
     match col.typeid()? {
         TypeIdentifier::Name(name) => Ok(Cow::Owned(name)),
         TypeIdentifier::Ty(ty) => {
-            if col.is_auto() {
+            if auto {
                 match ty {
                     SqlType::Int => Ok(Cow::Borrowed("SERIAL")),
                     SqlType::BigInt => Ok(Cow::Borrowed("BIGSERIAL")),
@@ -733,14 +737,63 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
+/// The name PostgreSQL gives to a constraint or sequence belonging to
+/// a table (and column), e.g. `table_column_key`.
+///
+/// Unless quoted, PostgreSQL folds table and column names to lower
+/// case. The result is written in the same way.
+fn derived_name(tbl_name: &str, col_name: Option<&str>, suffix: &str) -> String {
+    let parts: Vec<&str> = [Some(tbl_name), col_name].into_iter().flatten().collect();
+    let is_quoted = |part: &str| helper::quote_reserved_word(part) != part;
+    if !parts.iter().any(|part| is_quoted(part)) {
+        return format!("{}_{suffix}", parts.join("_"));
+    }
+    let folded: Vec<String> = parts
+        .iter()
+        .map(|part| match is_quoted(part) {
+            true => part.to_string(),
+            false => part.to_lowercase(),
+        })
+        .collect();
+    format!("\"{}_{suffix}\"", folded.join("_"))
+}
+
+/// Drop the primary key constraint of a table.
+fn drop_pkey(tbl_name: &str) -> String {
+    format!(
+        "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {};",
+        helper::quote_reserved_word(tbl_name),
+        derived_name(tbl_name, None, "pkey")
+    )
+}
+
+fn sql_literal_value(val: &SqlVal) -> Result<String> {
+    match val {
+        // x'..' is a bit string
+        SqlVal::Blob(val) => Ok(format!("'\\x{}'", hex::encode_upper(val))),
+        val => helper::sql_literal_value(val),
+    }
+}
+
 fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
-    let default: SqlVal = helper::column_default(col)?;
-    let mut stmts = vec![format!(
-        "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
+    let mut stmts = Vec::new();
+    if col.is_pk() {
+        // There is only ever one primary key.
+        stmts.push(drop_pkey(tbl_name));
+    }
+    let default = if col.is_auto() {
+        // Its sequence is the default
+        String::new()
+    } else {
+        let default: SqlVal = helper::column_default(col)?;
+        format!(" DEFAULT {}", sql_literal_value(&default)?)
+    };
+    stmts.push(format!(
+        "ALTER TABLE {} ADD COLUMN {}{};",
         helper::quote_reserved_word(tbl_name),
         define_column(col)?,
-        helper::sql_literal_value(&default)?
-    )];
+        default
+    ));
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
     }
@@ -756,12 +809,31 @@ fn remove_column(tbl_name: &str, name: &str) -> String {
     )
 }
 
+/// Whether PostgreSQL converts a column from one type to the other without being told how.
+fn converts_implicitly(old: &TypeIdentifier, new: &TypeIdentifier) -> bool {
+    let numeric = |ty: &TypeIdentifier| {
+        matches!(
+            ty,
+            TypeIdentifier::Ty(SqlType::Int | SqlType::BigInt | SqlType::Real)
+        )
+    };
+    *new == TypeIdentifier::Ty(SqlType::Text) || (numeric(old) && numeric(new))
+}
+
 fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String> {
     use helper::quote_reserved_word;
     let tbl_name = &table.name;
 
     // Let's figure out what changed about the column
     let mut stmts: Vec<String> = Vec::new();
+    if old.reference() != new.reference() && old.reference().is_some() {
+        // Drop the old reference, which need not hold for a changed column
+        stmts.push(format!(
+            "ALTER TABLE {} DROP CONSTRAINT {};",
+            quote_reserved_word(tbl_name),
+            derived_name(tbl_name, Some(old.name()), "fkey")
+        ));
+    }
     if old.name() != new.name() {
         // column rename
         stmts.push(format!(
@@ -771,13 +843,55 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             quote_reserved_word(new.name())
         ));
     }
+    let mut default = old.default();
+    if old.is_auto() && !new.is_auto() {
+        // no longer filled from a sequence
+        stmts.push(format!(
+            "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
+            quote_reserved_word(tbl_name),
+            quote_reserved_word(old.name()),
+        ));
+        stmts.push(format!(
+            "DROP SEQUENCE IF EXISTS {};",
+            derived_name(tbl_name, Some(old.name()), "seq"),
+        ));
+    }
     if old.typeid()? != new.typeid()? {
         // column type change
+        let sqltype = sqltype_for_col(new, false)?;
+        let using = if converts_implicitly(&old.typeid()?, &new.typeid()?) {
+            String::new()
+        } else {
+            // Neither values nor a default are converted unless asked for.
+            stmts.push(format!(
+                "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
+                quote_reserved_word(tbl_name),
+                quote_reserved_word(old.name()),
+            ));
+            default = &None;
+            format!(" USING {}::{}", quote_reserved_word(old.name()), sqltype)
+        };
         stmts.push(format!(
-            "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {};",
+            "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {}{};",
             quote_reserved_word(tbl_name),
             quote_reserved_word(old.name()),
-            col_sqltype(new)?,
+            sqltype,
+            using,
+        ));
+    }
+    if new.is_auto() && !old.is_auto() {
+        // to be filled from a sequence, as for a SERIAL column
+        let table = quote_reserved_word(tbl_name);
+        let column = quote_reserved_word(new.name());
+        let sequence = derived_name(tbl_name, Some(new.name()), "seq");
+        stmts.push(format!(
+            "CREATE SEQUENCE {sequence} OWNED BY {table}.{column};"
+        ));
+        stmts.push(format!(
+            "SELECT setval('{sequence}', COALESCE(MAX({column}), 0) + 1, false) FROM {table};"
+        ));
+        stmts.push(format!(
+            "ALTER TABLE {table} ALTER COLUMN {column} SET DEFAULT nextval('{sequence}');"
         ));
     }
     if old.nullable() != new.nullable() {
@@ -795,11 +909,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
 
         if new.is_pk() {
             // Drop the old primary key
-            stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {}_pkey;",
-                quote_reserved_word(tbl_name),
-                tbl_name
-            ));
+            stmts.push(drop_pkey(tbl_name));
 
             // add the new primary key
             stmts.push(format!(
@@ -823,15 +933,14 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         } else {
             // Standard constraint naming scheme
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_key;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                derived_name(tbl_name, Some(old.name()), "key")
             ));
         }
     }
 
-    if old.default() != new.default() {
+    if default != new.default() {
         stmts.push(match new.default() {
             None => format!(
                 "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
@@ -842,24 +951,13 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 "ALTER TABLE {} ALTER COLUMN {} SET DEFAULT {};",
                 quote_reserved_word(tbl_name),
                 quote_reserved_word(old.name()),
-                helper::sql_literal_value(val)?
+                sql_literal_value(val)?
             ),
         });
     }
 
-    if old.reference() != new.reference() {
-        if old.reference().is_some() {
-            // Drop the old reference
-            stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_fkey;",
-                quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
-            ));
-        }
-        if new.reference().is_some() {
-            stmts.push(define_fkey_constraint(tbl_name, new));
-        }
+    if old.reference() != new.reference() && new.reference().is_some() {
+        stmts.push(define_fkey_constraint(tbl_name, new));
     }
 
     let result = stmts.join("\n");
-- 
2.43.0


From ed278cb26e06aad07fe73bb10e07ad0afb8fd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 09/25] fix: write default values as valid SQL literals

Text was not escaped, JSON not quoted, dates quoted twice and timestamps not
in the format they are read in.
---
 butane_core/src/db/helper.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 171c1bd..4645d71 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -342,6 +342,10 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
     .unwrap()
 }
 
+fn quote_text(text: &str) -> String {
+    format!("'{}'", text.replace('\'', "''"))
+}
+
 pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
     use SqlVal::*;
     match val {
@@ -349,15 +353,15 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         SqlVal::Bool(val) => Ok(val.to_string()),
         Int(val) => Ok(val.to_string()),
         BigInt(val) => Ok(val.to_string()),
-        Real(val) => Ok(val.to_string()),
-        Text(val) => Ok(format!("'{val}'")),
+        Real(val) => Ok(format!("{val:?}")),
+        Text(val) => Ok(quote_text(val)),
         Blob(val) => Ok(format!("x'{}'", hex::encode_upper(val))),
         #[cfg(feature = "json")]
-        Json(val) => Ok(format!("{val}")),
+        Json(val) => Ok(quote_text(&val.to_string())),
         #[cfg(feature = "datetime")]
-        Date(val) => Ok(format!("'{}'", val.format("'%Y-%m-%d'"))),
+        Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
-        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
+        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%d %H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
         Custom(val) => Err(Error::LiteralForCustomUnsupported(*(*val).clone())),
     }
-- 
2.43.0


From c0792ec3395be881c74e95bda3d4934bcfbdfcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 10/25] fix: run turso migrations with semicolons in literals,
 let sqlite and turso number added automatic keys

---
 butane_core/src/db/sqlite.rs |  7 ++++++-
 butane_core/src/db/turso.rs  | 23 ++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index f52c179..33183fb 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -798,7 +798,12 @@ fn drop_table(name: &str) -> String {
 }
 
 fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
-    let default: SqlVal = helper::column_default(col)?;
+    let default = if col.is_auto() {
+        // assigned by the database
+        SqlVal::Null
+    } else {
+        helper::column_default(col)?
+    };
     let default = helper::sql_literal_value(&default)?;
     // "ALTER TABLE ADD COLUMN" cannot add a key or a unique column, nor
     // a reference from existing rows.
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index d5bf55a..8173438 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -323,14 +323,10 @@ impl ConnectionMethods for TursoConnection {
         if cfg!(feature = "log") {
             debug!("execute sql {sql}");
         }
-        // Turso doesn't have execute_batch, so we need to execute statements one by one
-        // Split on semicolons and execute each statement separately
-        for statement in sql.split(';').map(str::trim).filter(|s| !s.is_empty()) {
-            self.conn()?
-                .execute(statement, ())
-                .await
-                .map_err(|e| Error::Internal(e.to_string()))?;
-        }
+        self.conn()?
+            .execute_batch(sql)
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))?;
         Ok(())
     }
 
@@ -1075,11 +1071,16 @@ fn drop_table(name: &str) -> String {
 }
 
 fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
-    let default: SqlVal = helper::column_default(col)?;
+    let default = if col.is_auto() {
+        // assigned by the database
+        SqlVal::Null
+    } else {
+        helper::column_default(col)?
+    };
     let default = helper::sql_literal_value(&default)?;
     // "ALTER TABLE ADD COLUMN" cannot add a key or a unique column, nor
-    // a reference from existing rows.
-    if col.is_pk() || col.unique() || col.reference().is_some() {
+    // a reference from existing rows. A negative number is no constant to it.
+    if col.is_pk() || col.unique() || col.reference().is_some() || default.starts_with('-') {
         let old_table = current
             .get_table(tbl_name)
             .ok_or_else(|| Error::TableNotFound(tbl_name.to_string()))?;
-- 
2.43.0


From 14c9854a452a2145c4abec21763f6855e5454b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 11/25] fix: removing from a many-to-many relation only affects
 its owner

Also do not return an added member twice when it is stored already, nor a
removed one after saving.
---
 butane_core/src/many.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 17de3bd..c8a4be7 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -152,10 +152,16 @@ where
     use crate::query::QueryOps;
     let mut vals: Vec<T> = query.load(conn).await?;
     // Now add in the values for things not saved to the db yet
-    if !many.new_values.is_empty() {
+    let unsaved: Vec<SqlVal> = many
+        .new_values
+        .iter()
+        .filter(|new| !vals.iter().any(|val| val.pk().to_sql() == **new))
+        .cloned()
+        .collect();
+    if !unsaved.is_empty() {
         vals.append(
             &mut T::query()
-                .filter(BoolExpr::In(T::PKCOL, many.new_values.clone()))
+                .filter(BoolExpr::In(T::PKCOL, unsaved))
                 .load(conn)
                 .await?,
         );
@@ -258,9 +264,17 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
             .await?;
         }
         if !self.removed_values.is_empty() {
+            // all_values may still hold the removed values, so clear it
+            self.all_values = OnceLock::new();
             conn.delete_where(
                 &self.item_table,
-                BoolExpr::In("has", std::mem::take(&mut self.removed_values)),
+                BoolExpr::And(
+                    Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
+                    Box::new(BoolExpr::In(
+                        "has",
+                        std::mem::take(&mut self.removed_values),
+                    )),
+                ),
             )
             .await?;
         }
-- 
2.43.0


From 968eb35da841a6377ee7ab2914f40ca9a656041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 12/25] fix: in-memory migrations resolve types when read, file
 migrations accept empty text and any base migration

---
 butane_core/src/migrations/fsmigrations.rs  | 8 +++-----
 butane_core/src/migrations/memmigrations.rs | 2 --
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index a1dc4a5..699c73a 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -115,7 +115,7 @@ impl FsMigration {
         self.ensure_dir()?;
         let path = self.root.join(fname);
         let mut contents: Vec<u8> = contents.into();
-        if contents[contents.len() - 1] != b'\n' {
+        if contents.last() != Some(&b'\n') {
             contents.push(b'\n');
         }
         self.fs
@@ -191,10 +191,8 @@ impl MigrationMut for FsMigration {
             .parent()
             .ok_or(Error::MigrationError("Migrations fs not found".into()))?;
         let migrations = crate::migrations::from_root(migrations_dir);
-        let migration_list = migrations.all_migrations()?;
-        let from_info = migration_list
-            .iter()
-            .find(|&m| m.name() == *from_migration_name)
+        let from_info = migrations
+            .get_migration(from_migration_name)
             .ok_or(Error::MigrationError("Migration not found".into()))?
             .info()?;
         let from_table_bases = from_info.table_bases;
diff --git a/butane_core/src/migrations/memmigrations.rs b/butane_core/src/migrations/memmigrations.rs
index b6ce3f5..1585fae 100644
--- a/butane_core/src/migrations/memmigrations.rs
+++ b/butane_core/src/migrations/memmigrations.rs
@@ -68,7 +68,6 @@ impl Eq for MemMigration {}
 impl MigrationMut for MemMigration {
     fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
         self.db.replace_table(table.clone());
-        self.db.resolve_types()?;
         Ok(())
     }
     #[allow(unused_variables)]
@@ -92,7 +91,6 @@ impl MigrationMut for MemMigration {
     }
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
         self.db.add_type(key, sqltype);
-        self.db.resolve_types()?;
         Ok(())
     }
     fn set_migration_from(&mut self, prev: Option<String>) -> Result<()> {
-- 
2.43.0


From 9698a7b12cac1bcc8671e6154b010cc4b89e8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 13/25] fix: compare JSON columns on PostgreSQL as jsonb

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 3768a88..b50c605 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -1019,7 +1019,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
         Some(SqlType::Text) => postgres::types::Type::TEXT,
         Some(SqlType::Blob) => postgres::types::Type::BYTEA,
         #[cfg(feature = "json")]
-        Some(SqlType::Json) => postgres::types::Type::JSON,
+        Some(SqlType::Json) => postgres::types::Type::JSONB,
         #[cfg(feature = "datetime")]
         Some(SqlType::Date) => postgres::types::Type::DATE,
         #[cfg(feature = "datetime")]
-- 
2.43.0


From 58b5caaedeff7da448333341f1b6238d1f4855bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 14/25] fix: report stored values that do not fit their field,
 and NaN, instead of altering them

---
 butane_codegen/src/lib.rs    |  2 +-
 butane_core/src/db/sqlite.rs | 20 ++++++++++-----
 butane_core/src/db/turso.rs  | 34 ++++++++++++++++----------
 butane_core/src/sqlval.rs    | 47 +++++++++++++++++++++++-------------
 4 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/butane_codegen/src/lib.rs b/butane_codegen/src/lib.rs
index ba0b92d..f1e0486 100644
--- a/butane_codegen/src/lib.rs
+++ b/butane_codegen/src/lib.rs
@@ -461,7 +461,7 @@ fn derive_field_type_with_json(struct_name: &Ident) -> TokenStream2 {
             fn from_sql_ref(val: butane::SqlValRef) -> std::result::Result<Self, butane::Error> {
                 if let butane::SqlValRef::Json(v) = val {
                     use ::serde::Deserialize;
-                    return Ok(#struct_name::deserialize(v).unwrap());
+                    return Ok(#struct_name::deserialize(v)?);
                 }
                 Err(butane::Error::CannotConvertSqlVal(
                     butane::SqlType::Json,
diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 33183fb..b3c1cd4 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -500,23 +500,31 @@ impl<'c> BackendTransaction<'c> for SqliteTransaction<'c> {
 
 impl rusqlite::ToSql for SqlVal {
     fn to_sql(&self) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'_>> {
-        Ok(sqlvalref_to_sqlite(&self.as_ref()))
+        sqlvalref_to_sqlite(&self.as_ref())
     }
 }
 
 impl<'a> rusqlite::ToSql for SqlValRef<'a> {
     fn to_sql<'b>(&'b self) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'a>> {
-        Ok(sqlvalref_to_sqlite(self))
+        sqlvalref_to_sqlite(self)
     }
 }
 
-fn sqlvalref_to_sqlite<'a>(valref: &SqlValRef<'a>) -> rusqlite::types::ToSqlOutput<'a> {
+fn sqlvalref_to_sqlite<'a>(
+    valref: &SqlValRef<'a>,
+) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'a>> {
     use rusqlite::types::{ToSqlOutput::Borrowed, ToSqlOutput::Owned, Value, ValueRef};
     use SqlValRef::*;
-    match valref {
+    Ok(match valref {
         Bool(b) => Owned(Value::Integer(*b as i64)),
         Int(i) => Owned(Value::Integer(*i as i64)),
         BigInt(i) => Owned(Value::Integer(*i)),
+        // SQLite would silently store NULL
+        Real(r) if r.is_nan() => {
+            return Err(rusqlite::Error::ToSqlConversionFailure(
+                "NaN cannot be stored in SQLite".into(),
+            ))
+        }
         Real(r) => Owned(Value::Real(*r)),
         Text(t) => Borrowed(ValueRef::Text(t.as_bytes())),
         Blob(b) => Borrowed(ValueRef::Blob(b)),
@@ -537,7 +545,7 @@ fn sqlvalref_to_sqlite<'a>(valref: &SqlValRef<'a>) -> rusqlite::types::ToSqlOutp
         Null => Owned(Value::Null),
         #[cfg(feature = "pg")]
         Custom(_) => panic!("Custom types not supported in sqlite"),
-    }
+    })
 }
 
 #[pin_project]
@@ -637,7 +645,7 @@ fn sql_valref_from_rusqlite<'a>(
     }
     Ok(match ty {
         SqlType::Bool => SqlValRef::Bool(val.as_i64()? != 0),
-        SqlType::Int => SqlValRef::Int(val.as_i64()? as i32),
+        SqlType::Int => SqlValRef::Int(val.as_i64()?.try_into().map_err(|_| Error::OutOfRange)?),
         SqlType::BigInt => SqlValRef::BigInt(val.as_i64()?),
         SqlType::Real => SqlValRef::Real(val.as_f64()?),
         SqlType::Text => SqlValRef::Text(val.as_str()?),
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 8173438..3eaee0f 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -272,7 +272,7 @@ impl TursoConnection {
         let params: Vec<turso::Value> = values
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
-            .collect();
+            .collect::<Result<_>>()?;
 
         let mut rows = self
             .conn()?
@@ -383,7 +383,7 @@ impl ConnectionMethods for TursoConnection {
         let params: Vec<turso::Value> = values
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
-            .collect();
+            .collect::<Result<_>>()?;
         let mut rows = self
             .conn()?
             .query(&sqlquery, params)
@@ -431,7 +431,8 @@ impl ConnectionMethods for TursoConnection {
             debug!("values {values:?}");
         }
 
-        let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
+        let params: Vec<turso::Value> =
+            values.iter().map(sqlval_to_turso).collect::<Result<_>>()?;
         self.conn()?
             .execute(&sql, params)
             .await
@@ -475,7 +476,8 @@ impl ConnectionMethods for TursoConnection {
             &mut TursoPlaceholderSource::new(),
             &mut sql,
         );
-        let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
+        let params: Vec<turso::Value> =
+            values.iter().map(sqlval_to_turso).collect::<Result<_>>()?;
         self.conn()?
             .execute(&sql, params)
             .await
@@ -492,7 +494,8 @@ impl ConnectionMethods for TursoConnection {
     ) -> Result<()> {
         let mut sql = String::new();
         sql_insert_or_update(table, columns, pkcol, &mut sql);
-        let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
+        let params: Vec<turso::Value> =
+            values.iter().map(sqlval_to_turso).collect::<Result<_>>()?;
         self.conn()?
             .execute(&sql, params)
             .await
@@ -516,8 +519,9 @@ impl ConnectionMethods for TursoConnection {
             &mut TursoPlaceholderSource::new(),
             &mut sql,
         );
-        let mut params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        params.push(sqlval_to_turso(&pk));
+        let mut params: Vec<turso::Value> =
+            values.iter().map(sqlval_to_turso).collect::<Result<_>>()?;
+        params.push(sqlval_to_turso(&pk)?);
         self.conn()?
             .execute(&sql, params)
             .await
@@ -531,7 +535,7 @@ impl ConnectionMethods for TursoConnection {
             helper::quote_reserved_word(table),
             helper::quote_reserved_word(pkcol)
         );
-        let params = vec![sqlval_to_turso(&pk.as_ref())];
+        let params = vec![sqlval_to_turso(&pk.as_ref())?];
         self.conn()?
             .execute(&sql, params)
             .await
@@ -554,7 +558,7 @@ impl ConnectionMethods for TursoConnection {
         let params: Vec<turso::Value> = values
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
-            .collect();
+            .collect::<Result<_>>()?;
         let rows_affected = self
             .conn()?
             .execute(&sql, params)
@@ -754,9 +758,13 @@ fn poll_to_completion<F: std::future::Future>(future: F) -> F::Output {
 }
 
 // Value conversion functions
-fn sqlval_to_turso(val: &SqlValRef<'_>) -> turso::Value {
+fn sqlval_to_turso(val: &SqlValRef<'_>) -> Result<turso::Value> {
     use SqlValRef::*;
-    match val {
+    Ok(match val {
+        // As in SQLite, NaN is not a value which can be stored or looked up
+        Real(r) if r.is_nan() => {
+            return Err(Error::Internal("NaN cannot be stored in turso".into()))
+        }
         Bool(b) => turso::Value::Integer(*b as i64),
         Int(i) => turso::Value::Integer(*i as i64),
         BigInt(i) => turso::Value::Integer(*i),
@@ -778,7 +786,7 @@ fn sqlval_to_turso(val: &SqlValRef<'_>) -> turso::Value {
         Null => turso::Value::Null,
         #[cfg(feature = "pg")]
         Custom(_) => panic!("Custom types not supported in turso"),
-    }
+    })
 }
 
 fn turso_value_to_sqlval_typed(val: &turso::Value, ty: &SqlType) -> Result<SqlVal> {
@@ -809,7 +817,7 @@ fn turso_value_to_sqlval_typed(val: &turso::Value, ty: &SqlType) -> Result<SqlVa
                     )))
                 }
             };
-            SqlVal::Int(i as i32)
+            SqlVal::Int(i.try_into().map_err(|_| Error::OutOfRange)?)
         }
         SqlType::BigInt => {
             let i = match val {
diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 2047b4c..8a8c736 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -368,18 +368,12 @@ macro_rules! impl_basic_from_sql {
         impl FromSql for $prim {
             fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
                 if let SqlValRef::$variant(val) = valref {
-                    Ok(val as $prim)
+                    // A stored value outside the range of the field's type is an error
+                    <$prim>::try_from(val).or_else(|_| sql_conv_err!(valref, $sqltype))
                 } else {
                     sql_conv_err!(valref, $sqltype)
                 }
             }
-            fn from_sql(val: SqlVal) -> Result<Self> {
-                if let SqlVal::$variant(val) = val {
-                    Ok(val as $prim)
-                } else {
-                    sql_conv_err!(val, $sqltype)
-                }
-            }
         }
     };
 }
@@ -390,6 +384,12 @@ macro_rules! impl_prim_sql {
     };
     ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
         impl_basic_from_sql!($prim, $variant, $sqltype);
+        impl_prim_to_sql!($prim, $variant, $sqltype, $reftype);
+    };
+}
+
+macro_rules! impl_prim_to_sql {
+    ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
         impl ToSql for $prim {
             fn to_sql(&self) -> SqlVal {
                 self.clone().into_sql()
@@ -420,7 +420,20 @@ impl_prim_sql!(i16, Int, Int);
 impl_prim_sql!(u8, Int, Int);
 impl_prim_sql!(i8, Int, Int);
 impl_prim_sql!(f64, Real, Real);
-impl_prim_sql!(f32, Real, Real);
+impl_prim_to_sql!(f32, Real, Real, f32);
+
+impl FromSql for f32 {
+    fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
+        match valref {
+            // A finite value which does not fit must not turn into an infinity
+            SqlValRef::Real(val) if (val as f32).is_infinite() && !val.is_infinite() => {
+                sql_conv_err!(valref, Real)
+            }
+            SqlValRef::Real(val) => Ok(val as f32),
+            _ => sql_conv_err!(valref, Real),
+        }
+    }
+}
 
 impl FromSql for String {
     fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
@@ -546,10 +559,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
-                .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<HashMap<String, T>>());
+            return m
+                .into_iter()
+                .map(|(k, v)| Ok((k, T::deserialize(v)?)))
+                .collect::<Result<HashMap<String, T>>>();
         }
         sql_conv_err!(val, Json)
     }
@@ -585,10 +598,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
-                .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<BTreeMap<String, T>>());
+            return m
+                .into_iter()
+                .map(|(k, v)| Ok((k, T::deserialize(v)?)))
+                .collect::<Result<BTreeMap<String, T>>>();
         }
         sql_conv_err!(val, Json)
     }
-- 
2.43.0


From dfdd042ed1d9d69493f54338fcfbeaa50382594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:25 +0000
Subject: [PATCH 15/25] fix: count the rows a turso bulk delete removes

---
 butane_core/src/db/turso.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 3eaee0f..45103f7 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -546,9 +546,8 @@ impl ConnectionMethods for TursoConnection {
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
         // Transform Subquery expressions since Turso doesn't support them
         let expr = self.transform_subqueries(expr).await?;
-        let mut sql = format!("DELETE FROM {}", helper::quote_reserved_word(table));
+        let mut sql = format!(" FROM {} WHERE ", helper::quote_reserved_word(table));
         let mut values: Vec<SqlVal> = Vec::new();
-        sql.write_str(" WHERE ").unwrap();
         sql_for_expr(
             query::Expr::Condition(Box::new(expr)),
             &mut values,
@@ -559,12 +558,26 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect::<Result<_>>()?;
-        let rows_affected = self
+        // The number of changes turso reports for a DELETE includes index entries.
+        let mut rows = self
             .conn()?
-            .execute(&sql, params)
+            .query(&format!("SELECT *{sql}"), params.clone())
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))?;
+        let mut count = 0;
+        while rows
+            .next()
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))?
+            .is_some()
+        {
+            count += 1;
+        }
+        self.conn()?
+            .execute(&format!("DELETE{sql}"), params)
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
-        Ok(rows_affected as usize)
+        Ok(count)
     }
 
     async fn has_table(&self, table: &str) -> Result<bool> {
-- 
2.43.0


From 07f96610063742cc6a4df71a46d8ae6a8483ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 16/25] fix: recognise connection strings by their scheme,
 quote added parameters

---
 butane_core/src/db/mod.rs | 142 +++++++++++++++++++-------------------
 1 file changed, 72 insertions(+), 70 deletions(-)

diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index 1df43ad..9214477 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -590,9 +590,19 @@ impl ConnectionSpec {
         url::Url::parse(self.connection_string()).ok()
     }
 
+    /// The scheme, in lower case, of a connection string which is a URI.
+    fn scheme(connection_string: &str) -> Option<String> {
+        let (scheme, _) = connection_string.split_once(':')?;
+        let valid = scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+            && scheme
+                .chars()
+                .all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c));
+        valid.then(|| scheme.to_ascii_lowercase())
+    }
+
     fn is_pg_key_value_pairs(connection_string: &str) -> bool {
-        // If it starts with a scheme (contains ://), it's a URI, not key-value pairs
-        if connection_string.contains("://") {
+        // If it starts with a scheme, it's a URI, not key-value pairs
+        if Self::scheme(connection_string).is_some() {
             return false;
         }
         // host and hostaddr are optional in Postgresql, however this prevents connecting
@@ -602,28 +612,66 @@ impl ConnectionSpec {
     }
 
     /// Add a query parameter to the connection string.
+    ///
+    /// The name and value are given literally, and are quoted or percent-encoded as
+    /// the syntax of the connection string requires.
     pub fn add_parameter(&mut self, name: &str, value: &str) -> Result<()> {
         if self.backend_name() == "pg" && Self::is_pg_key_value_pairs(&self.conn_str) {
+            if name.is_empty() || name.contains(|c: char| c.is_whitespace() || "='\\".contains(c)) {
+                return Err(crate::Error::UnknownConnectString(format!(
+                    "Invalid parameter name {name:?}"
+                )));
+            }
             // Append using PostgreSQL key-value pair syntax.
-            self.conn_str.push_str(&format!(" {}={}", name, value));
+            if value.is_empty() || value.contains(|c: char| c.is_whitespace() || "'\\".contains(c))
+            {
+                let value = value.replace('\\', "\\\\").replace('\'', "\\'");
+                self.conn_str.push_str(&format!(" {name}='{value}'"));
+            } else {
+                self.conn_str.push_str(&format!(" {name}={value}"));
+            }
             return Ok(());
         }
-        if self.connection_string_uri().is_none() {
+        if Self::scheme(&self.conn_str).is_none() {
             return Err(crate::Error::UnknownConnectString(
                 "Cannot add query parameter to connection string that is not a postgres or URI"
                     .to_string(),
             ));
         }
-
-        if self.conn_str.contains('?') {
-            self.conn_str.push_str(&format!("&{}={}", name, value));
-        } else {
-            self.conn_str.push_str(&format!("?{}={}", name, value));
+        if name.is_empty() {
+            return Err(crate::Error::UnknownConnectString(
+                "Empty parameter name".to_string(),
+            ));
         }
+
+        // PostgreSQL URIs have no fragment.
+        let end = match self.backend_name().as_str() {
+            "pg" => self.conn_str.len(),
+            _ => self.conn_str.find('#').unwrap_or(self.conn_str.len()),
+        };
+        let before = &self.conn_str[..end];
+        let separator = match before.find('?') {
+            None => "?",
+            Some(_) if before.ends_with(['?', '&']) => "",
+            Some(_) => "&",
+        };
+        let (name, value) = (percent_encode(name), percent_encode(value));
+        self.conn_str
+            .insert_str(end, &format!("{separator}{name}={value}"));
         Ok(())
     }
 }
 
+/// Percent-encode a name or value in the query part of a URI.
+fn percent_encode(s: &str) -> String {
+    s.bytes()
+        .map(|b| match b {
+            b'!'..=b'~' if !b"\"#%&'+<=>?[\\]^`{|}".contains(&b) => char::from(b).to_string(),
+            _ => format!("%{b:02X}"),
+        })
+        .collect()
+}
+
 /// Convert a string to a connection spec.
 ///
 /// The string may be any connection string supported by the database backend.
@@ -638,67 +686,21 @@ impl ConnectionSpec {
 impl TryFrom<&str> for ConnectionSpec {
     type Error = crate::Error;
     fn try_from(value: &str) -> Result<Self> {
-        match url::Url::parse(value) {
-            Ok(parsed) => {
-                match parsed.scheme() {
-                    "sqlite" => {
-                        // SQLite uses file: URLs, but we want to accept sqlite:
-                        // in order that the URIs are more expressive.
-                        let value = value.replacen("sqlite:", "file:", 1);
-                        Ok(ConnectionSpec {
-                            backend_name: "sqlite".to_string(),
-                            conn_str: value,
-                        })
-                    }
-                    "file" => Ok(ConnectionSpec {
-                        backend_name: "sqlite".to_string(),
-                        conn_str: value.to_string(),
-                    }),
-                    "postgres" | "postgresql" => Ok(ConnectionSpec {
-                        backend_name: "pg".to_string(),
-                        conn_str: value.to_string(),
-                    }),
-                    "libsql" => {
-                        // libsql:// is an alias for turso://
-                        let value = value.replacen("libsql:", "turso:", 1);
-                        Ok(ConnectionSpec {
-                            backend_name: "turso".to_string(),
-                            conn_str: value,
-                        })
-                    }
-                    _ => Ok(ConnectionSpec {
-                        backend_name: parsed.scheme().to_string(),
-                        conn_str: value.to_string(),
-                    }),
-                }
-            }
-            Err(url::ParseError::InvalidPort) => {
-                // This occurs when using a PostgreSQL multi-host connection string.
-                if value.starts_with("postgres") {
-                    Ok(ConnectionSpec {
-                        backend_name: "pg".to_string(),
-                        conn_str: value.to_string(),
-                    })
-                } else {
-                    Ok(ConnectionSpec {
-                        backend_name: "sqlite".to_string(),
-                        conn_str: value.to_string(),
-                    })
-                }
-            }
-            Err(_) => {
-                // Spaces are allowed between the key and the equals sign in a PostgreSQL connection string.
-                if Self::is_pg_key_value_pairs(value) {
-                    return Ok(ConnectionSpec {
-                        backend_name: "pg".to_string(),
-                        conn_str: value.to_string(),
-                    });
-                }
-                Ok(ConnectionSpec {
-                    backend_name: "sqlite".to_string(),
-                    conn_str: value.to_string(),
-                })
-            }
+        let spec = |backend: &str, conn_str: &str| Ok(ConnectionSpec::new(backend, conn_str));
+        match Self::scheme(value) {
+            Some(scheme) => match scheme.as_str() {
+                // SQLite uses file: URLs, but we want to accept sqlite:
+                // in order that the URIs are more expressive.
+                "sqlite" => spec("sqlite", &format!("file{}", &value[scheme.len()..])),
+                "file" => spec("sqlite", value),
+                "postgres" | "postgresql" => spec("pg", value),
+                // libsql:// is an alias for turso://
+                "libsql" => spec("turso", &format!("turso{}", &value[scheme.len()..])),
+                _ => spec(&scheme, value),
+            },
+            // Spaces are allowed between the key and the equals sign in a PostgreSQL connection string.
+            None if Self::is_pg_key_value_pairs(value) => spec("pg", value),
+            None => spec("sqlite", value),
         }
     }
 }
-- 
2.43.0


From adb30c58ff803d02f8500591a68267f397a5642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 17/25] fix: resolve references to renamed tables by the
 model's name, however often types are resolved

---
 butane_core/src/migrations/adb.rs | 33 ++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index aa2668b..98cd090 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -103,11 +103,10 @@ impl Visitor<'_> for TypeKeyVisitor {
     where
         E: serde::de::Error,
     {
-        let rest = v.to_string().split_off(3);
-        if v.starts_with("PK:") {
-            Ok(TypeKey::PK(rest))
-        } else if v.starts_with("CT:") {
-            Ok(TypeKey::CustomType(rest))
+        if let Some(rest) = v.strip_prefix("PK:") {
+            Ok(TypeKey::PK(rest.to_string()))
+        } else if let Some(rest) = v.strip_prefix("CT:") {
+            Ok(TypeKey::CustomType(rest.to_string()))
         } else {
             Err(E::custom("Unknown type key string".to_string()))
         }
@@ -138,11 +137,23 @@ impl Ord for TypeKey {
 struct TypeResolver {
     // The types of some columns may not be known right away
     types: HashMap<TypeKey, TypeIdentifier>,
+    // Tables whose name differs from the name of their model, by name of the model.
+    renamed_tables: HashMap<String, String>,
 }
 impl TypeResolver {
-    fn new() -> Self {
+    fn new(extra_types: &BTreeMap<TypeKey, DeferredSqlType>) -> Self {
+        let renamed_tables = extra_types
+            .iter()
+            .filter_map(|(key, ty)| match (key, ty) {
+                (TypeKey::PK(model), DeferredSqlType::Deferred(TypeKey::PK(table))) => {
+                    Some((model.clone(), table.clone()))
+                }
+                _ => None,
+            })
+            .collect();
         TypeResolver {
             types: HashMap::new(),
+            renamed_tables,
         }
     }
     fn find_type(&self, key: &TypeKey) -> Option<TypeIdentifier> {
@@ -155,6 +166,12 @@ impl TypeResolver {
             }
         }
 
+        if let TypeKey::PK(model) = key {
+            if let Some(table) = self.renamed_tables.get(model) {
+                return self.types.get(&TypeKey::PK(table.clone())).cloned();
+            }
+        }
+
         self.types.get(key).cloned()
     }
     fn insert(&mut self, key: TypeKey, ty: TypeIdentifier) -> bool {
@@ -207,7 +224,7 @@ impl ADB {
 
     /// Fixup as many [`DeferredSqlType::Deferred`] instances as possible into [`DeferredSqlType::Known`].
     pub fn resolve_types(&mut self) -> Result<()> {
-        let mut resolver = TypeResolver::new();
+        let mut resolver = TypeResolver::new(&self.extra_types);
         let mut changed = true;
 
         let current_tables = self.tables.clone();
@@ -242,6 +259,8 @@ impl ADB {
                     DeferredSqlType::KnownId(ty) => {
                         changed |= resolver.insert(key.clone(), ty.clone()) || changed;
                     }
+                    // The name of a renamed table, needed as long as columns may refer to its model
+                    DeferredSqlType::Deferred(TypeKey::PK(_)) if matches!(key, TypeKey::PK(_)) => {}
                     DeferredSqlType::Deferred(tykey) => {
                         if let Some(sqltype) = resolver.find_type(tykey) {
                             *ty = sqltype.into();
-- 
2.43.0


From a524391f4954380b3db9212f8d0d7663e99f3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 18/25] fix: filter! keeps the grouping of blocks and rejects
 wrong arguments

Blocks and parentheses lost their grouping, so precedence differed from
the Rust expression; like() and is_in() ignored surplus arguments; any
punctuation was accepted between the type and the expression; fields
written as raw identifiers were not found.
---
 butane_codegen/src/filter.rs | 19 +++++++++++--------
 butane_codegen/src/lib.rs    |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/butane_codegen/src/filter.rs b/butane_codegen/src/filter.rs
index c8627e6..18d6ad1 100755
--- a/butane_codegen/src/filter.rs
+++ b/butane_codegen/src/filter.rs
@@ -29,13 +29,12 @@ pub fn handle_expr(fields: &impl ToTokens, expr: &Expr) -> TokenStream2 {
     }
 }
 
-fn ident(name: &str) -> Ident {
-    Ident::new(name, Span::call_site())
-}
-
 fn handle_block(block: &syn::Block) -> TokenStream2 {
-    let stmts = &block.stmts;
-    quote!(#(#stmts)*)
+    match block.stmts.as_slice() {
+        // A single expression is not wrapped in a block, so that a variable is not moved out of.
+        [syn::Stmt::Expr(expr, None)] => quote!((#expr)),
+        stmts => quote!({ #(#stmts)* }),
+    }
 }
 
 fn handle_bin_op(fields: &impl ToTokens, binop: &ExprBinary) -> TokenStream2 {
@@ -57,7 +56,7 @@ fn handle_bin_op(fields: &impl ToTokens, binop: &ExprBinary) -> TokenStream2 {
 fn handle_call(fields: &impl ToTokens, mcall: &ExprMethodCall) -> TokenStream2 {
     let method = mcall.method.to_string();
     match method.as_str() {
-        "contains" | "matches" if mcall.args.len() != 1 => {
+        "contains" | "matches" | "like" | "is_in" if mcall.args.len() != 1 => {
             return make_compile_error!(mcall.span()=> "expected one argument to '{}'", method);
         }
         _ => (),
@@ -128,7 +127,11 @@ fn fieldexpr<F>(fields: &impl ToTokens, field: &F) -> TokenStream2
 where
     F: ToTokens + Spanned,
 {
-    let fieldexpr_ident = ident(&format!("{}", field.into_token_stream()));
     let span = field.span();
+    // The name may be a raw identifier.
+    let fieldexpr_ident: Ident = match syn::parse_str(&field.to_token_stream().to_string()) {
+        Ok(ident) => ident,
+        Err(_) => return make_compile_error!(span=> "expected the name of a field"),
+    };
     quote_spanned!(span=> #fields.#fieldexpr_ident())
 }
diff --git a/butane_codegen/src/lib.rs b/butane_codegen/src/lib.rs
index f1e0486..bed6006 100644
--- a/butane_codegen/src/lib.rs
+++ b/butane_codegen/src/lib.rs
@@ -202,7 +202,7 @@ pub fn filter(input: TokenStream) -> TokenStream {
         }
     };
 
-    if matches!(args[1], TokenTree::Punct(_)) {
+    if matches!(&args[1], TokenTree::Punct(p) if p.as_char() == ',') {
     } else {
         return make_compile_error!("Expected filter!(Type, expression)").into();
     }
-- 
2.43.0


From 84d56ad5001580fe88790444e1d6707b2ab485f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 19/25] fix: reject models which cannot be represented before
 recording them

Many fields used as key or with a default, nested Options, repeated or
unfit defaults and malformed table attributes were recorded as something
else. Custom types with raw names are found by the name they are used
with, and a field may be named 'default'.
---
 butane_codegen/src/lib.rs         |  4 +-
 butane_core/src/codegen/dbobj.rs  | 79 +++++++++++++++++++++++++------
 butane_core/src/codegen/mod.rs    | 42 ++++++++++++++++
 butane_core/src/migrations/adb.rs |  1 +
 4 files changed, 110 insertions(+), 16 deletions(-)

diff --git a/butane_codegen/src/lib.rs b/butane_codegen/src/lib.rs
index bed6006..bfdb767 100644
--- a/butane_codegen/src/lib.rs
+++ b/butane_codegen/src/lib.rs
@@ -324,7 +324,7 @@ fn derive_field_type_for_newtype(ident: &Ident, sqltype: SqlType) -> TokenStream
     let mut migrations = migrations_for_dir();
     codegen::add_custom_type(
         &mut migrations,
-        ident.to_string(),
+        codegen::make_ident_literal_str(ident).value(),
         DeferredSqlType::KnownId(TypeIdentifier::Ty(sqltype)),
     )
     .unwrap();
@@ -368,7 +368,7 @@ fn derive_field_type_for_enum(ident: &Ident, data_enum: syn::DataEnum) -> TokenS
 
     codegen::add_custom_type(
         &mut migrations,
-        ident.to_string(),
+        codegen::make_ident_literal_str(ident).value(),
         DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Text)),
     )
     .unwrap();
diff --git a/butane_core/src/codegen/dbobj.rs b/butane_core/src/codegen/dbobj.rs
index 15235e7..fa5c4e2 100644
--- a/butane_core/src/codegen/dbobj.rs
+++ b/butane_core/src/codegen/dbobj.rs
@@ -5,8 +5,9 @@ use quote::{quote, quote_spanned, ToTokens};
 use syn::{spanned::Spanned, Field, ItemStruct, LitStr};
 
 use super::{
-    extract_path_from_type, fields, get_autopk_sql_type, get_type_argument, is_auto,
-    is_many_to_many, is_row_field, make_ident_literal_str, make_lit, pk_field,
+    default_fits, extract_path_from_type, fields, get_autopk_sql_type, get_default,
+    get_path_argument, get_type_argument, is_auto, is_many_to_many, is_row_field,
+    make_ident_literal_str, make_lit, pk_field,
 };
 use crate::migrations::adb::{DeferredSqlType, TypeIdentifier, MANY_SUFFIX};
 use crate::SqlType;
@@ -23,11 +24,6 @@ pub fn impl_dbobject(ast_struct: &ItemStruct, config: &Config) -> TokenStream2 {
     let tablelit = make_tablelit(config, tyname);
     let fields_type = fields_type(tyname);
 
-    let err = verify_fields(ast_struct);
-    if let Some(err) = err {
-        return err;
-    }
-
     let pk_field = pk_field(ast_struct).unwrap();
     let pktype = &pk_field.ty;
     let pkident = pk_field.ident.clone().unwrap();
@@ -247,7 +243,7 @@ pub fn add_fieldexprs(ast_struct: &ItemStruct, config: &Config) -> TokenStream2
         impl #tyname {
             /// Get fields.
             pub fn fields() -> #fields_type {
-                #fields_type::default()
+                <#fields_type as std::default::Default>::default()
             }
         }
         /// Helper struct for butane model.
@@ -384,13 +380,68 @@ fn many_table_lit(ast_struct: &ItemStruct, field: &Field, config: &Config) -> Li
     make_lit(&format!("{}_{}{MANY_SUFFIX}", tyname, ident.strip_raw()))
 }
 
-fn verify_fields(ast_struct: &ItemStruct) -> Option<TokenStream2> {
-    let pk_field = pk_field(ast_struct);
-    if pk_field.is_none() {
-        return Some(make_compile_error!(ast_struct.span() => "No pk field found"));
-    };
-    let pk_field = pk_field.unwrap();
+/// Check the attributes of the struct itself.
+pub fn verify_struct(ast_struct: &ItemStruct) -> Option<TokenStream2> {
+    let mut tables = ast_struct
+        .attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident("table"));
+    let attr = tables.next()?;
+    match &attr.meta {
+        syn::Meta::NameValue(syn::MetaNameValue {
+            value:
+                syn::Expr::Lit(syn::ExprLit {
+                    lit: syn::Lit::Str(_),
+                    ..
+                }),
+            ..
+        }) => tables.next().map(
+            |attr| make_compile_error!(attr.span() => "Only one table attribute is supported"),
+        ),
+        _ => Some(make_compile_error!(attr.span() => "Expected #[table = \"NAME\"]")),
+    }
+}
+
+/// Check that the fields can be represented in a table.
+pub fn verify_fields(ast_struct: &ItemStruct) -> Option<TokenStream2> {
+    let has_attr = |f: &Field, name: &str| f.attrs.iter().any(|attr| attr.path().is_ident(name));
+    let pk_field = pk_field(ast_struct)
+        .expect("No primary key found. Expected 'id' field or field with #[pk] attribute.");
+    if is_many_to_many(&pk_field) {
+        return Some(make_compile_error!(pk_field.span() => "The pk field must be a column"));
+    }
     for f in fields(ast_struct) {
+        if f.ident.is_none() {
+            return Some(make_compile_error!(f.span() => "Fields must be named for butane"));
+        }
+        if get_type_argument(&f.ty, "Option")
+            .and_then(|t| get_path_argument(t, "Option"))
+            .is_some()
+        {
+            return Some(
+                make_compile_error!(f.span() => "An Option of an Option cannot be stored"),
+            );
+        }
+        if is_many_to_many(f) && (has_attr(f, "unique") || has_attr(f, "default")) {
+            return Some(
+                make_compile_error!(f.span() => "A Many field cannot be unique or have a default"),
+            );
+        }
+        if f.attrs
+            .iter()
+            .filter(|attr| attr.path().is_ident("default"))
+            .count()
+            > 1
+        {
+            return Some(make_compile_error!(f.span() => "Only one default is supported"));
+        }
+        if let Some(default) = get_default(f).expect("Malformed default attribute") {
+            if !default_fits(f, &default) {
+                return Some(
+                    make_compile_error!(f.span() => "The default is not a value of the field's type"),
+                );
+            }
+        }
         if is_auto(f) {
             let path = extract_path_from_type(&f.ty);
             match get_autopk_sql_type(path) {
diff --git a/butane_core/src/codegen/mod.rs b/butane_core/src/codegen/mod.rs
index 6813275..e0dd41d 100644
--- a/butane_core/src/codegen/mod.rs
+++ b/butane_core/src/codegen/mod.rs
@@ -95,6 +95,11 @@ fn dataobject_impl<M>(
 where
     M: MigrationMut,
 {
+    // Nothing is recorded of a model which is rejected.
+    if let Some(err) = dbobj::verify_struct(ast_struct).or_else(|| dbobj::verify_fields(ast_struct))
+    {
+        return (err, TokenStream2::new());
+    }
     let config: dbobj::Config = config_from_attributes(ast_struct);
     migration::write_table_to_disk(ms, ast_struct, &config).unwrap();
     let impltraits = dbobj::impl_dbobject(ast_struct, &config);
@@ -494,6 +499,43 @@ pub fn get_deferred_sql_type(path: &syn::Path) -> DeferredSqlType {
         })
 }
 
+/// Whether a default can be the value of a field, as far as the field's type is known.
+fn default_fits(field: &Field, default: &SqlVal) -> bool {
+    let path = extract_path_from_type(&field.ty);
+    let path = get_path_argument(path, "Option").unwrap_or(path);
+    let Some(DeferredSqlType::KnownId(TypeIdentifier::Ty(sqltype))) = get_primitive_sql_type(path)
+    else {
+        return true;
+    };
+    match (sqltype, default) {
+        (SqlType::Int | SqlType::BigInt, SqlVal::Int(val)) => {
+            let val = *val;
+            match path.get_ident().map(|i| i.to_string()).as_deref() {
+                Some("u8") => u8::try_from(val).is_ok(),
+                Some("i8") => i8::try_from(val).is_ok(),
+                Some("u16") => u16::try_from(val).is_ok(),
+                Some("i16") => i16::try_from(val).is_ok(),
+                Some("u32") => u32::try_from(val).is_ok(),
+                _ => true,
+            }
+        }
+        (SqlType::Bool, SqlVal::Bool(_))
+        | (SqlType::Real, SqlVal::Int(_) | SqlVal::Real(_))
+        | (SqlType::Text, SqlVal::Text(_) | SqlVal::Int(_))
+        | (SqlType::Blob, SqlVal::Blob(_)) => true,
+        (
+            SqlType::Bool
+            | SqlType::Int
+            | SqlType::BigInt
+            | SqlType::Real
+            | SqlType::Text
+            | SqlType::Blob,
+            _,
+        ) => false,
+        _ => true,
+    }
+}
+
 /// Defaults are used for fields added by later migrations.
 ///
 /// Example:
diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 98cd090..2cdba5b 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -345,6 +345,7 @@ impl ATable {
     }
     /// Make no column the primary key. A column which was may still be
     /// referred to, so it stays unique.
+    #[cfg(any(feature = "sqlite", feature = "turso"))]
     pub(crate) fn demote_pk(&mut self) {
         for col in self.columns.iter_mut().filter(|c| c.pk) {
             col.pk = false;
-- 
2.43.0


From f252cdc374b26b7e4e152271fbcae99a4dae9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 20/25] fix: quote column names wherever reserved words need it

Comparisons, unqualified columns and RETURNING used the bare name.
---
 butane_core/src/db/helper.rs | 37 +++++++++++++++++++++++-------------
 butane_core/src/db/pg.rs     |  7 ++++++-
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 4645d71..534abe3 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -19,10 +19,12 @@ pub(crate) trait PlaceholderSource {
     fn next_placeholder(&mut self) -> Cow<'_, str>;
 }
 
-/// Quotes the `word` if it is a reserved word.
+/// Quotes the `word` if it is a reserved word, or cannot be an identifier without quotes.
 pub fn quote_reserved_word(word: &str) -> Cow<'_, str> {
-    if sqlparser::keywords::ALL_KEYWORDS.contains(&word.to_uppercase().as_str()) {
-        format!("\"{}\"", word).into()
+    let plain = word.chars().all(|c| c.is_alphanumeric() || c == '_')
+        && !word.starts_with(|c: char| c.is_numeric());
+    if !plain || sqlparser::keywords::ALL_KEYWORDS.contains(&word.to_uppercase().as_str()) {
+        format!("\"{}\"", word.replace('"', "\"\"")).into()
     } else {
         word.into()
     }
@@ -55,18 +57,27 @@ where
         Condition(c) => match *c {
             True => write!(w, "TRUE"),
             Eq(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NULL"),
-                _ => write!(w, "{col} = ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} = ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
             Ne(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NOT NULL"),
-                _ => write!(w, "{col} <> ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NOT NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} <> ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
-            Lt(col, ex) => write!(w, "{col} < ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Gt(col, ex) => write!(w, "{col} > ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            Lt(col, ex) => {
+                write!(w, "{} < ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Gt(col, ex) => {
+                write!(w, "{} > ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Le(col, ex) => write!(w, "{} <= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Ge(col, ex) => write!(w, "{} >= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
                 // The conjunction of no conditions is always true
                 if conds.is_empty() {
@@ -337,7 +348,7 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
             quote_reserved_word(table),
             quote_reserved_word(col.name())
         ),
-        None => w.write_str(col.name()),
+        None => w.write_str(&quote_reserved_word(col.name())),
     }
     .unwrap()
 }
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index b50c605..9ea7011 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -241,7 +241,12 @@ where
             &mut PgPlaceholderSource::new(),
             &mut sql,
         );
-        write!(&mut sql, " RETURNING {}", pkcol.name()).unwrap();
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
         }
-- 
2.43.0


From a48555e9357ddf4b41b4ac38c7ef9cab0a909bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 21/25] fix: an abandoned request or panic no longer breaks an
 adapted connection

Requests own their arguments, so the worker never touches memory of a future
that was dropped; the worker outlives a panic; a transaction whose start was
abandoned is rolled back.
---
 butane_core/src/db/adapter.rs | 188 +++++++++++++++++++++++-----------
 1 file changed, 126 insertions(+), 62 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index b4f2c6f..d0773f6 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -6,9 +6,10 @@
 
 use super::*;
 use crate::query::Order;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 use std::thread;
-use std::thread::JoinHandle;
+use std::thread::{JoinHandle, ThreadId};
 
 enum Command {
     Func(Box<dyn FnOnce() + Send>),
@@ -29,7 +30,11 @@ impl AsyncAdapterEnv {
         let thread_handle = thread::spawn(move || {
             while let Ok(cmd) = receiver.recv() {
                 match cmd {
-                    Command::Func(func) => func(),
+                    // If func panics its caller hears of it because the
+                    // result channel is closed. The thread must survive
+                    // because it is the only one which may use, and
+                    // release, the context.
+                    Command::Func(func) => _ = catch_unwind(AssertUnwindSafe(func)),
                     Command::Shutdown => {
                         return; // break out of the loop
                     }
@@ -46,18 +51,15 @@ impl AsyncAdapterEnv {
     ///
     /// This is implemented by running it on the special thread created
     /// when the `AsyncAdapterEnv` was created.
-    async fn invoke<'c, 's, 'result, F, T, U>(
-        &'s self,
-        context: &SyncSendPtrMut<T>,
-        func: F,
-    ) -> Result<U>
+    ///
+    /// The returned future may be dropped before `func` has run, so
+    /// `func` must own whatever it needs. The context outlives it
+    /// because it is released by a later command on the same thread.
+    async fn invoke<'c, F, T, U>(&self, context: &SyncSendPtrMut<T>, func: F) -> Result<U>
     where
-        F: FnOnce(&'c T) -> Result<U> + Send,
-        F: 'result,
-        U: Send + 'result,
+        F: FnOnce(&'c T) -> Result<U> + Send + 'static,
+        U: Send + 'static,
         T: ?Sized + 'c,
-        's: 'result,
-        'c: 'result,
     {
         // func itself must be `Send`, but we do not require &T to be
         // Send (and thus don't require T to be Sync).  We do this by
@@ -70,31 +72,29 @@ impl AsyncAdapterEnv {
         // and forth, it's essentially owned by the worker thread -- all operations
         // with context occur on that worker thread.
         let (tx, rx) = tokio::sync::oneshot::channel();
-        let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
+        let func_taking_ptr =
+            move |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            let context = context.clone_unsafe();
+            let wrapped_func = move || _ = tx.send(func_taking_ptr(context));
             self.invoke_internal_unsafe(wrapped_func)?;
         }
         rx.await?
     }
 
-    async fn invoke_mut<'c, 's, 'result, F, T, U>(
-        &'s self,
-        context: &SyncSendPtrMut<T>,
-        func: F,
-    ) -> Result<U>
+    /// Like `invoke`, for functions which change the context.
+    async fn invoke_mut<'c, F, T, U>(&self, context: &SyncSendPtrMut<T>, func: F) -> Result<U>
     where
-        F: FnOnce(&'c mut T) -> Result<U> + Send,
-        F: 'result,
-        U: Send + 'result,
+        F: FnOnce(&'c mut T) -> Result<U> + Send + 'static,
+        U: Send + 'c,
         T: ?Sized + 'c,
-        's: 'result,
-        'c: 'result,
     {
         let (tx, rx) = tokio::sync::oneshot::channel();
-        let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
+        let func_taking_ptr =
+            move |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            let context = context.clone_unsafe();
+            let wrapped_func = move || _ = tx.send(func_taking_ptr(context));
             self.invoke_internal_unsafe(wrapped_func)?;
         }
         rx.await?
@@ -217,24 +217,18 @@ impl<T: ?Sized> AsyncAdapter<T> {
     }
 
     /// Invokes the provided function with a sync method.
-    async fn invoke<'c, 's, 'result, F, U>(&'s self, func: F) -> Result<U>
+    async fn invoke<'c, F, U>(&'c self, func: F) -> Result<U>
     where
-        F: FnOnce(&'c T) -> Result<U> + Send,
-        F: 'result,
-        U: Send + 'result,
-        's: 'result,
-        'c: 'result,
-        's: 'c,
+        F: FnOnce(&'c T) -> Result<U> + Send + 'static,
+        U: Send + 'static,
     {
         self.env.invoke(&self.context, func).await
     }
 
-    async fn invoke_mut<'c, 'result, F, U>(&'c self, func: F) -> Result<U>
+    async fn invoke_mut<'c, F, U>(&'c self, func: F) -> Result<U>
     where
-        F: FnOnce(&'c mut T) -> Result<U> + Send,
-        F: 'result,
-        U: Send + 'result,
-        'c: 'result,
+        F: FnOnce(&'c mut T) -> Result<U> + Send + 'static,
+        U: Send + 'c,
     {
         self.env.invoke_mut(&self.context, func).await
     }
@@ -278,23 +272,69 @@ impl<T> AsyncAdapter<T> {
 impl<T: ?Sized> Drop for AsyncAdapter<T> {
     fn drop(&mut self) {
         // Drops the box to Drop T
-        self.env
-            .invoke_blocking(&self.context, |context| unsafe {
-                std::mem::drop(Box::from_raw(context.inner));
-                Ok(())
-            })
-            .unwrap();
+        let r = self.env.invoke_blocking(&self.context, |context| unsafe {
+            std::mem::drop(Box::from_raw(context.inner));
+            Ok(())
+        });
+        if r.is_err() {
+            crate::error!("The adapted connection or transaction could not be released cleanly");
+        }
         // Note, self.context.inner is now a dangling pointer
     }
 }
 
+/// A transaction on its way to whoever asked for it. If nobody takes
+/// it any more, it is released on the worker thread.
+struct PendingTransaction<'c> {
+    trans: Option<SyncSendPtrMut<dyn BackendTransaction<'c> + 'c>>,
+    sender: crossbeam_channel::Sender<Command>,
+    worker: ThreadId,
+}
+
+impl<'c> PendingTransaction<'c> {
+    fn accept(mut self) -> SyncSendPtrMut<dyn BackendTransaction<'c> + 'c> {
+        self.trans.take().unwrap()
+    }
+}
+
+impl Drop for PendingTransaction<'_> {
+    fn drop(&mut self) {
+        let Some(trans) = self.trans.take() else {
+            return;
+        };
+        let release = move || {
+            let trans = trans;
+            std::mem::drop(unsafe { Box::from_raw(trans.inner) });
+        };
+        if thread::current().id() == self.worker {
+            release();
+        } else {
+            // No later request can be ahead of this one, and the
+            // connection is released after it.
+            let release: Box<dyn FnOnce() + Send + '_> = Box::new(release);
+            let release: Box<dyn FnOnce() + Send + 'static> =
+                unsafe { std::mem::transmute(release) };
+            _ = self.sender.send(Command::Func(release));
+        }
+    }
+}
+
+fn owned_values(values: &[SqlValRef<'_>]) -> Vec<SqlVal> {
+    values.iter().map(|val| val.clone().into()).collect()
+}
+
+fn value_refs(values: &[SqlVal]) -> Vec<SqlValRef<'_>> {
+    values.iter().map(|val| val.as_ref()).collect()
+}
+
 #[async_trait]
 impl<T> ConnectionMethodsAsync for AsyncAdapter<T>
 where
     T: ConnectionMethods + ?Sized,
 {
     async fn execute(&self, sql: &str) -> Result<()> {
-        self.invoke(|conn| conn.execute(sql)).await
+        let sql = sql.to_string();
+        self.invoke(move |conn| conn.execute(&sql)).await
     }
 
     async fn query<'c>(
@@ -306,11 +346,13 @@ where
         offset: Option<i32>,
         sort: Option<&[Order]>,
     ) -> Result<RawQueryResult<'c>> {
+        let (table, columns) = (table.to_string(), columns.to_vec());
+        let sort = sort.map(|sort| sort.to_vec());
         let rows = self
-            .invoke(|conn| {
+            .invoke(move |conn| {
                 let rows: Box<dyn BackendRows> =
-                    conn.query(table, columns, expr, limit, offset, sort)?;
-                let vec_rows = super::connmethods::vec_from_backend_rows(rows, columns)?;
+                    conn.query(&table, &columns, expr, limit, offset, sort.as_deref())?;
+                let vec_rows = super::connmethods::vec_from_backend_rows(rows, &columns)?;
                 Ok(Box::new(vec_rows))
             })
             .await?;
@@ -323,8 +365,12 @@ where
         pkcol: &Column,
         values: &[SqlValRef<'_>],
     ) -> Result<SqlVal> {
-        self.invoke(|conn| conn.insert_returning_pk(table, columns, pkcol, values))
-            .await
+        let (table, columns, pkcol) = (table.to_string(), columns.to_vec(), pkcol.clone());
+        let values = owned_values(values);
+        self.invoke(move |conn| {
+            conn.insert_returning_pk(&table, &columns, &pkcol, &value_refs(&values))
+        })
+        .await
     }
     /// Like `insert_returning_pk` but with no return value.
     async fn insert_only(
@@ -333,7 +379,9 @@ where
         columns: &[Column],
         values: &[SqlValRef<'_>],
     ) -> Result<()> {
-        self.invoke(|conn| conn.insert_only(table, columns, values))
+        let (table, columns) = (table.to_string(), columns.to_vec());
+        let values = owned_values(values);
+        self.invoke(move |conn| conn.insert_only(&table, &columns, &value_refs(&values)))
             .await
     }
     /// Insert unless there's a conflict on the primary key column, in which case update.
@@ -344,8 +392,12 @@ where
         pkcol: &Column,
         values: &[SqlValRef<'_>],
     ) -> Result<()> {
-        self.invoke(|conn| conn.insert_or_replace(table, columns, pkcol, values))
-            .await
+        let (table, columns, pkcol) = (table.to_string(), columns.to_vec(), pkcol.clone());
+        let values = owned_values(values);
+        self.invoke(move |conn| {
+            conn.insert_or_replace(&table, &columns, &pkcol, &value_refs(&values))
+        })
+        .await
     }
     async fn update(
         &self,
@@ -355,15 +407,23 @@ where
         columns: &[Column],
         values: &[SqlValRef<'_>],
     ) -> Result<()> {
-        self.invoke(|conn| conn.update(table, pkcol, pk, columns, values))
-            .await
+        let (table, columns) = (table.to_string(), columns.to_vec());
+        let pk: SqlVal = pk.into();
+        let values = owned_values(values);
+        self.invoke(move |conn| {
+            conn.update(&table, pkcol, pk.as_ref(), &columns, &value_refs(&values))
+        })
+        .await
     }
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
-        self.invoke(|conn| conn.delete_where(table, expr)).await
+        let table = table.to_string();
+        self.invoke(move |conn| conn.delete_where(&table, expr))
+            .await
     }
     /// Tests if a table exists in the database.
     async fn has_table(&self, table: &str) -> Result<bool> {
-        self.invoke(|conn| conn.has_table(table)).await
+        let table = table.to_string();
+        self.invoke(move |conn| conn.has_table(&table)).await
     }
 }
 
@@ -373,14 +433,18 @@ where
     T: BackendConnection,
 {
     async fn transaction<'c>(&'c mut self) -> Result<TransactionAsync<'c>> {
-        let transaction_ptr: SyncSendPtrMut<dyn BackendTransaction> = self
-            .invoke_mut(|conn| {
+        let sender = self.env.sender.clone();
+        let pending: PendingTransaction<'c> = self
+            .invoke_mut(move |conn| {
                 let transaction: Transaction = conn.transaction()?;
-                let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
-                Ok(unsafe { SyncSendPtrMut::new(transaction_ptr) })
+                Ok(PendingTransaction {
+                    trans: Some(unsafe { SyncSendPtrMut::new(Box::into_raw(transaction.trans)) }),
+                    sender,
+                    worker: thread::current().id(),
+                })
             })
             .await?;
-        let transaction_adapter = self.create_with_same_env(transaction_ptr);
+        let transaction_adapter = self.create_with_same_env(pending.accept());
         Ok(TransactionAsync::new(Box::new(transaction_adapter)))
     }
 
-- 
2.43.0


From 1b293e1debb053620c504f6394259f01c1a9e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:40 +0000
Subject: [PATCH 22/25] fix: contains() of a relation to a model with a column
 named owner or has

The joined many table made such columns ambiguous.
---
 butane_core/src/query/fieldexpr.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/query/fieldexpr.rs b/butane_core/src/query/fieldexpr.rs
index f2c3f70..87ffb6b 100644
--- a/butane_core/src/query/fieldexpr.rs
+++ b/butane_core/src/query/fieldexpr.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, Cow};
 use std::marker::PhantomData;
 
 use crate::fkey::ForeignKey;
-use crate::query::{BoolExpr, Column, Expr, Join};
+use crate::query::{BoolExpr, Expr};
 use crate::sqlval::{FieldType, SqlVal, ToSql};
 use crate::DataObject;
 
@@ -120,16 +120,17 @@ where
         }
     }
     pub fn contains(&self, q: BoolExpr) -> BoolExpr {
-        BoolExpr::SubqueryJoin {
+        // Nested rather than joined, as the columns of `T` may be named like those of the many table.
+        BoolExpr::Subquery {
             col: O::PKCOL,
-            tbl2: Cow::Borrowed(T::TABLE),
-            col2: Column::new(self.many_table, "owner"),
-            joins: vec![Join::Inner {
-                join_table: self.many_table,
-                col1: Column::new(self.many_table, "has"),
-                col2: Column::new(T::TABLE, T::PKCOL),
-            }],
-            expr: Box::new(q),
+            tbl2: Cow::Borrowed(self.many_table),
+            tbl2_col: "owner",
+            expr: Box::new(BoolExpr::Subquery {
+                col: "has",
+                tbl2: Cow::Borrowed(T::TABLE),
+                tbl2_col: T::PKCOL,
+                expr: Box::new(q),
+            }),
         }
     }
     pub fn containspk(&self, pk: impl Borrow<<T::PKType as FieldType>::RefType>) -> BoolExpr {
-- 
2.43.0


From eb4c15bcd56c23a10ee3261532b4d63c67fd1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:40 +0000
Subject: [PATCH 23/25] fix: names which some backend reserves or folds

analyse, isnull and variadic were not quoted; a table named excluded made
upserts ambiguous (silently keeping the old row on SQLite); a column named
rowid broke inserts on SQLite; has_table did not find mixed-case tables on
PostgreSQL and Turso, and found system tables on PostgreSQL; constraints of
long or non-ASCII names were not found on PostgreSQL.
---
 butane_core/src/db/helper.rs |  9 +++++-
 butane_core/src/db/pg.rs     | 60 ++++++++++++++++++++++++++----------
 butane_core/src/db/sqlite.rs | 29 ++++++++++-------
 butane_core/src/db/turso.rs  |  8 +++--
 4 files changed, 76 insertions(+), 30 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 534abe3..4fa9877 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -19,11 +19,18 @@ pub(crate) trait PlaceholderSource {
     fn next_placeholder(&mut self) -> Cow<'_, str>;
 }
 
+/// Words reserved by some backend which are missing from the keywords of `sqlparser`.
+const MORE_KEYWORDS: &[&str] = &["ANALYSE", "ISNULL", "VARIADIC"];
+
 /// Quotes the `word` if it is a reserved word, or cannot be an identifier without quotes.
 pub fn quote_reserved_word(word: &str) -> Cow<'_, str> {
     let plain = word.chars().all(|c| c.is_alphanumeric() || c == '_')
         && !word.starts_with(|c: char| c.is_numeric());
-    if !plain || sqlparser::keywords::ALL_KEYWORDS.contains(&word.to_uppercase().as_str()) {
+    let upper = word.to_uppercase();
+    if !plain
+        || sqlparser::keywords::ALL_KEYWORDS.contains(&upper.as_str())
+        || MORE_KEYWORDS.contains(&upper.as_str())
+    {
         format!("\"{}\"", word.replace('"', "\"\"")).into()
     } else {
         word.into()
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 9ea7011..530c1ec 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -350,11 +350,12 @@ where
         Ok(cnt as usize)
     }
     async fn has_table(&self, table: &str) -> Result<bool> {
-        // future improvement, should be schema-aware
-        let future = self
-            .client()?
-            .prepare("SELECT table_name FROM information_schema.tables WHERE table_name=$1;");
+        let future = self.client()?.prepare(
+            "SELECT table_name FROM information_schema.tables \
+            WHERE table_name=$1 AND table_schema = ANY(current_schemas(false));",
+        );
         let stmt = future.await?;
+        let table = stored_name(table);
         let tableref: &[&(dyn postgres::types::ToSql + Sync)] = &[&table];
         let future = self.client()?.query(&stmt, tableref);
         let rows = future.await?;
@@ -742,25 +743,47 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
+/// The most bytes which PostgreSQL keeps of a name.
+const MAX_IDENTIFIER_LEN: usize = 63;
+
+/// The name by which PostgreSQL stores a table or column. Unless
+/// quoted, names are folded to lower case.
+fn stored_name(name: &str) -> String {
+    if helper::quote_reserved_word(name) == name {
+        name.to_ascii_lowercase()
+    } else {
+        name.to_string()
+    }
+}
+
 /// The name PostgreSQL gives to a constraint or sequence belonging to
 /// a table (and column), e.g. `table_column_key`.
 ///
 /// Unless quoted, PostgreSQL folds table and column names to lower
 /// case. The result is written in the same way.
 fn derived_name(tbl_name: &str, col_name: Option<&str>, suffix: &str) -> String {
-    let parts: Vec<&str> = [Some(tbl_name), col_name].into_iter().flatten().collect();
+    let mut parts: Vec<String> = [Some(tbl_name), col_name]
+        .into_iter()
+        .flatten()
+        .map(str::to_string)
+        .collect();
     let is_quoted = |part: &str| helper::quote_reserved_word(part) != part;
-    if !parts.iter().any(|part| is_quoted(part)) {
-        return format!("{}_{suffix}", parts.join("_"));
+    let quoted = parts.iter().any(|part| is_quoted(part));
+    if quoted {
+        parts = parts.iter().map(|part| stored_name(part)).collect();
+    }
+    // The longer of the names is shortened until the whole fits.
+    let length = |parts: &[String]| parts.iter().map(|p| p.len() + 1).sum::<usize>() + suffix.len();
+    while length(&parts) > MAX_IDENTIFIER_LEN {
+        let longest = usize::from(parts.len() > 1 && parts[1].len() >= parts[0].len());
+        parts[longest].pop();
+    }
+    let name = format!("{}_{suffix}", parts.join("_"));
+    if quoted {
+        format!("\"{name}\"")
+    } else {
+        name
     }
-    let folded: Vec<String> = parts
-        .iter()
-        .map(|part| match is_quoted(part) {
-            true => part.to_string(),
-            false => part.to_lowercase(),
-        })
-        .collect();
-    format!("\"{}_{suffix}\"", folded.join("_"))
 }
 
 /// Drop the primary key constraint of a table.
@@ -977,7 +1000,12 @@ pub fn sql_insert_or_replace_with_placeholders(
     w: &mut impl Write,
 ) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    write!(w, "INTO {}", helper::quote_reserved_word(table)).unwrap();
+    if table.eq_ignore_ascii_case("excluded") {
+        // Keep the table distinct from the row proposed for insertion.
+        write!(w, " AS target").unwrap();
+    }
+    write!(w, " (").unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold(1, |n, _| {
diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index b3c1cd4..13e9fa1 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -295,21 +295,23 @@ impl ConnectionMethods for rusqlite::Connection {
             &mut SQLitePlaceholderSource::new(),
             &mut sql,
         );
+        write!(
+            sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
             #[cfg(feature = "debug")]
             debug!("values {values:?}");
         }
-        self.execute(&sql, rusqlite::params_from_iter(values))?;
-        let pk: SqlVal = self.query_row_and_then(
-            &format!(
-                "SELECT {} FROM {} WHERE ROWID = last_insert_rowid()",
-                helper::quote_reserved_word(pkcol.name()),
-                helper::quote_reserved_word(table),
-            ),
-            [],
-            |row| sql_val_from_rusqlite(row.get_ref_unwrap(0), pkcol),
-        )?;
+        let mut stmt = self.prepare(&sql)?;
+        let mut rows = stmt.query(rusqlite::params_from_iter(values))?;
+        let row = rows.next()?.ok_or(rusqlite::Error::QueryReturnedNoRows)?;
+        let pk = sql_val_from_rusqlite(row.get_ref_unwrap(0), pkcol)?;
+        // The statement is complete, and its failure known, only after the last row.
+        while rows.next()?.is_some() {}
         Ok(pk)
     }
     fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
@@ -953,7 +955,12 @@ fn is_referenced(current: &ADB, tbl_name: &str) -> bool {
 /// Write SQL that performs an insert or update.
 pub fn sql_insert_or_update(table: &str, columns: &[Column], pkcol: &Column, w: &mut impl Write) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    write!(w, "INTO {}", helper::quote_reserved_word(table)).unwrap();
+    if table.eq_ignore_ascii_case("excluded") {
+        // Keep the table distinct from the row proposed for insertion.
+        write!(w, " AS target").unwrap();
+    }
+    write!(w, " (").unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold("", |sep, _| {
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 45103f7..7d42a08 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -581,8 +581,12 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn has_table(&self, table: &str) -> Result<bool> {
-        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
-        let params = vec![turso::Value::Text(table.to_string())];
+        // Turso stores the names of tables in lower case.
+        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND (name=? OR name=?)";
+        let params = vec![
+            turso::Value::Text(table.to_string()),
+            turso::Value::Text(table.to_lowercase()),
+        ];
         let mut rows = self
             .conn()?
             .query(sql, params)
-- 
2.43.0


From 5c23e25d2d2d9a04b2775e44d718167c4aad1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:57 +0000
Subject: [PATCH 24/25] fix: a pooled connection is not handed out inside an
 earlier user's transaction

---
 butane/src/db/deadpool.rs | 4 ++++
 butane/src/db/r2.rs       | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/butane/src/db/deadpool.rs b/butane/src/db/deadpool.rs
index 0d0a822..2e67265 100644
--- a/butane/src/db/deadpool.rs
+++ b/butane/src/db/deadpool.rs
@@ -16,6 +16,10 @@ impl Manager for ConnectionManager {
         if conn.is_closed() {
             return Err(RecycleError::message("Connection is closed"));
         }
+        // End a transaction which the last user of the connection has left open.
+        // That there mostly is none is an error to some backends.
+        let _ = conn.execute("ROLLBACK").await;
+        conn.execute("SELECT 1").await?;
         Ok(())
     }
 }
diff --git a/butane/src/db/r2.rs b/butane/src/db/r2.rs
index 7ba2b49..3034be8 100644
--- a/butane/src/db/r2.rs
+++ b/butane/src/db/r2.rs
@@ -14,6 +14,7 @@ impl ManageConnection for ConnectionManager {
     }
 
     fn is_valid(&self, conn: &mut Connection) -> Result<()> {
+        end_transaction(conn);
         conn.execute("SELECT 1")
     }
 
@@ -21,3 +22,9 @@ impl ManageConnection for ConnectionManager {
         conn.is_closed()
     }
 }
+
+/// Ends a transaction which the last user of the connection has left open.
+/// That there mostly is none is an error to some backends.
+fn end_transaction(conn: &Connection) {
+    let _ = conn.execute("ROLLBACK");
+}
-- 
2.43.0


From a6523226bbd0d9bba91fbf25a7574aa387a06e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:01 +0000
Subject: [PATCH 25/25] fix: schema files are replaced as a whole, and types
 never recorded without the lock

---
 butane_core/src/migrations/fs.rs           | 19 +++++++++++++-----
 butane_core/src/migrations/fsmigrations.rs | 23 +++++++++-------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/butane_core/src/migrations/fs.rs b/butane_core/src/migrations/fs.rs
index 1433063..37fc7c2 100644
--- a/butane_core/src/migrations/fs.rs
+++ b/butane_core/src/migrations/fs.rs
@@ -1,6 +1,7 @@
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::Read;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 /// Filesystem abstraction for [`Migrations`].
 ///
@@ -12,8 +13,11 @@ pub trait Filesystem: Debug {
     fn ensure_dir(&self, path: &Path) -> std::io::Result<()>;
     /// List all paths in a directory.
     fn list_dir(&self, path: &Path) -> std::io::Result<Vec<PathBuf>>;
-    /// Opens a file for writing. Creates it if it does not exist. Truncates it otherwise.
-    fn write(&self, path: &Path) -> std::io::Result<Box<dyn Write>>;
+    /// Replaces the contents of a file. Creates it if it does not exist.
+    ///
+    /// Other processes, and any later one should this one die, find either
+    /// the old contents or the new ones.
+    fn write(&self, path: &Path, contents: &[u8]) -> std::io::Result<()>;
     /// Opens a file for reading.
     fn read(&self, path: &Path) -> std::io::Result<Box<dyn Read>>;
     /// Delete a file.
@@ -33,8 +37,13 @@ impl Filesystem for OsFilesystem {
             .map(|entry| entry.map(|de| de.path()))
             .collect()
     }
-    fn write(&self, path: &Path) -> std::io::Result<Box<dyn Write>> {
-        std::fs::File::create(path).map(|f| Box::new(f) as Box<dyn Write>)
+    fn write(&self, path: &Path, contents: &[u8]) -> std::io::Result<()> {
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let count = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let temporary = path.with_file_name(format!(".{}-{count}.tmp", std::process::id()));
+        std::fs::write(&temporary, contents)
+            .and_then(|()| std::fs::rename(&temporary, path))
+            .inspect_err(|_| _ = std::fs::remove_file(&temporary))
     }
     fn read(&self, path: &Path) -> std::io::Result<Box<dyn Read>> {
         std::fs::File::open(path).map(|f| Box::new(f) as Box<dyn Read>)
diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index 699c73a..091f942 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::collections::BTreeMap;
 use std::fs::{File, OpenOptions};
-use std::io::{Read, Write};
+use std::io::Read;
 use std::path::{Path, PathBuf};
 
 use fs2::FileExt;
@@ -67,9 +67,9 @@ impl FsMigration {
             match entry.file_name() {
                 None => continue,
                 Some(name) => {
-                    let mut rd = self.fs.read(&entry)?;
-                    let mut wr = other.fs.write(&other.root.join(name))?;
-                    std::io::copy(&mut rd, &mut wr)?;
+                    let mut contents = Vec::new();
+                    self.fs.read(&entry)?.read_to_end(&mut contents)?;
+                    other.fs.write(&other.root.join(name), &contents)?;
                 }
             }
         }
@@ -118,11 +118,7 @@ impl FsMigration {
         if contents.last() != Some(&b'\n') {
             contents.push(b'\n');
         }
-        self.fs
-            .write(&path)?
-            .write_all(&contents)
-            .map_err(<std::io::Error as Into<Error>>::into)?;
-
+        self.fs.write(&path, &contents)?;
         Ok(())
     }
 
@@ -239,7 +235,8 @@ impl MigrationMut for FsMigration {
     }
 
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
-        let _lock = self.lock_exclusive();
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         let typefile = self.root.join(TYPES_FILENAME);
 
         let mut types: SqlTypeMap = match self.fs.read(&typefile) {
@@ -373,14 +370,12 @@ impl FsMigrations {
     fn save_state(&mut self, state: &MigrationsState) -> Result<()> {
         let path = self.root.join(".gitignore");
         if !path.exists() {
-            let mut f = self.fs.write(&path)?;
-            f.write_all(b"lock\n")?;
+            self.fs.write(&path, b"lock\n")?;
         }
         let path = self.root.join("state.json");
-        let mut f = self.fs.write(&path)?;
         let mut contents = serde_json::to_string_pretty(state)?;
         contents.push('\n');
-        f.write_all(contents.as_bytes()).map_err(|e| e.into())
+        Ok(self.fs.write(&path, contents.as_bytes())?)
     }
     /// Detach the latest migration from the list of migrations.
     ///
-- 
2.43.0

