From 9dbffc650dba950402ef5fb6986505477c7f86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:20 +0000
Subject: [PATCH 01/32] fix: panic with integer overflow when negating the
 minimum integer

---
 src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2b0cd8a..04ebafd 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -664,7 +664,10 @@ impl Runtime {
 
 		match (op, value) {
 			(Minus, Value::Float(ref f)) => Ok(Flow::Regular((-f).into())),
-			(Minus, Value::Int(i)) => Ok(Flow::Regular((-i).into())),
+			(Minus, Value::Int(i)) => i
+				.checked_neg()
+				.map(|i| Flow::Regular(i.into()))
+				.ok_or_else(|| Panic::integer_overflow(operand_pos)),
 			(Minus, value) => Err(Panic::type_error(value, "int or float", operand_pos)),
 
 			(Not, Value::Bool(b)) => Ok(Flow::Regular((!b).into())),
-- 
2.43.0


From 7451e17891809b84e23a35b81b5a23e488d434b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:20 +0000
Subject: [PATCH 02/32] fix: hash positive and negative float zero alike, as
 they are equal

---
 src/runtime/value/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/value/float.rs b/src/runtime/value/float.rs
index 604138e..3eea01f 100644
--- a/src/runtime/value/float.rs
+++ b/src/runtime/value/float.rs
@@ -67,6 +67,8 @@ impl Hash for Float {
 		let float =
 			if self.is_nan() {
 				f64::NAN // Make sure that the hash equals for all NaN values.
+			} else if self.0 == 0.0 {
+				0.0 // Positive and negative zero are equal, and therefore must share the same hash.
 			} else {
 				self.0
 			};
-- 
2.43.0


From ca34a0997e508867753a31af1c779c39a77df7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:20 +0000
Subject: [PATCH 03/32] fix: check duplicate keys of nested dict literals
 independently

---
 src/semantic/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index b702d78..088cd7a 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -456,7 +456,8 @@ impl<'a> Analyzer<'a> {
 
 			// Dict.
 			ast::Literal::Dict(items) => {
-				self.dict_keys.clear();
+				// Dict literals may be nested, so the keys of the enclosing literal must be preserved.
+				let outer_keys = std::mem::take(self.dict_keys);
 
 				let items = self.analyze_items(
 					|analyzer, ((symbol, pos), expr)| {
@@ -477,9 +478,11 @@ impl<'a> Analyzer<'a> {
 						Some((symbol, expr))
 					},
 					items.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				*self.dict_keys = outer_keys;
 
-				Some(Literal::Dict(items))
+				Some(Literal::Dict(items?))
 			}
 
 			// Function.
-- 
2.43.0


From a7934cf5a720c1109db8719a615bb48a025e3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:26 +0000
Subject: [PATCH 04/32] fix: keep the statements preceding a top-level return

---
 src/syntax/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/syntax/parser/mod.rs b/src/syntax/parser/mod.rs
index 0ee6170..e69093d 100644
--- a/src/syntax/parser/mod.rs
+++ b/src/syntax/parser/mod.rs
@@ -193,8 +193,14 @@ where
 {
 	/// Parse the input, producing a top-level block.
 	pub fn parse(mut self) -> ast::Block {
+		let mut statements = Vec::new();
+
 		loop {
-			let block = self.parse_block();
+			// The block ends early after a return. The following statements must not replace the
+			// ones already parsed.
+			if let ast::Block::Block(block) = self.parse_block() {
+				statements.extend(block.into_vec());
+			}
 
 			match self.token.take() {
 				// If the token is a block terminator, the parse_block won't parse anything.
@@ -206,7 +212,7 @@ where
 				}
 
 				// Stop on EOF.
-				None => return block,
+				None => return statements.into_boxed_slice().into(),
 
 				token => {
 					self.token = token;
-- 
2.43.0


From 78104e734602990aa0bd41d9e456d5cf2a6a6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:27 +0000
Subject: [PATCH 05/32] fix: restore the stack when an imported module panics

---
 src/runtime/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 04ebafd..75bb7c9 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -103,14 +103,22 @@ impl Runtime {
 		self.stack.store(mem::SlotIx(0), self.std.copy());
 
 		// Execute the program.
-		let value = match self.eval_block(&program.statements)? {
+		let result = self.eval_block(&program.statements);
+
+		// Drop global variables. This must be done even if the program panics, because the
+		// panic may be caught by the importing module.
+		self.stack.shrink(slots);
+
+		if result.is_err() {
+			// Arguments of interrupted calls may be left behind.
+			self.arguments.truncate(initial_args_len);
+		}
+
+		let value = match result? {
 			Flow::Regular(value) => value,
 			flow => panic!("invalid flow in root state: {:#?}", flow)
 		};
 
-		// Drop global variables.
-		self.stack.shrink(slots);
-
 		debug_assert_eq!(self.stack.len(), initial_stack_len);
 		debug_assert_eq!(self.arguments.len(), initial_args_len);
 
-- 
2.43.0


From dfcbd214df4a33aea79dcc769ed129723c8f15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:43 +0000
Subject: [PATCH 06/32] fix: pass empty quoted command arguments as empty
 strings

---
 src/syntax/parser/command.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/syntax/parser/command.rs b/src/syntax/parser/command.rs
index 10da9ef..c39d3ab 100644
--- a/src/syntax/parser/command.rs
+++ b/src/syntax/parser/command.rs
@@ -363,6 +363,13 @@ where
 		// Push the trailing literal, if any.
 		push_literal(&mut literal, &mut parts);
 
+		// Empty quotes still constitute an argument, which is the empty string.
+		if parts.is_empty() {
+			parts.push(
+				ast::ArgPart::Unit(ast::ArgUnit::Literal(Default::default()))
+			);
+		}
+
 		ast::Argument {
 			parts: parts.into(),
 			pos
-- 
2.43.0


From ea5d2f97336e1fc22116365e413350c0cd7317c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:18 +0000
Subject: [PATCH 07/32] fix: handle negative and overflowing bounds in
 std.substr

---
 src/runtime/lib/substr.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index ea474d6..94bb90e 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use gc::{Finalize, Trace};
 
 use super::{
@@ -17,9 +19,12 @@ struct Substr;
 
 impl Substr {
     fn substr(string: &[u8], start: i64, len: i64) -> Result<Value, Error> {
-        let start = start as usize;
-        let end = start + (len as usize);
-        let substr = string.get(start..end);
+        // Negative or overflowing bounds are out of the string.
+        let range = usize::try_from(start)
+            .ok()
+            .zip(usize::try_from(len).ok())
+            .and_then(|(start, len)| Some(start..start.checked_add(len)?));
+        let substr = range.and_then(|range| string.get(range));
         Ok(substr.into())
     }
 }
-- 
2.43.0


From 3e014afb5e57015c6c768f5228a055db1fbb9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:49 +0000
Subject: [PATCH 08/32] fix: finish integer ranges whose next number would
 overflow

---
 src/runtime/lib/range.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/range.rs b/src/runtime/lib/range.rs
index ba229d2..c6aa1c1 100644
--- a/src/runtime/lib/range.rs
+++ b/src/runtime/lib/range.rs
@@ -7,6 +7,7 @@ use super::{
 	keys,
 	CallContext,
 	Dict,
+	Float,
 	RustFun,
 	NativeFun,
 	Panic,
@@ -52,6 +53,20 @@ impl NativeFun for Range {
 }
 
 
+/// Advance a number by a step. Integers saturate, as such values are always out of range.
+trait Advance {
+	fn advance(self, step: Self) -> Self;
+}
+
+impl Advance for i64 {
+	fn advance(self, step: Self) -> Self { self.saturating_add(step) }
+}
+
+impl Advance for Float {
+	fn advance(self, step: Self) -> Self { self + step }
+}
+
+
 #[derive(Trace, Finalize)]
 struct RangeImpl<T: 'static> {
 	from: GcCell<T>,
@@ -62,7 +77,7 @@ struct RangeImpl<T: 'static> {
 impl<T> NativeFun for RangeImpl<T>
 where
 	T: Trace + Finalize + 'static,
-	T: Clone + Default + Ord + std::ops::Add<Output = T>,
+	T: Clone + Default + Ord + Advance,
 	T: Into<Value>,
 {
 	fn name(&self) -> &'static str { "std.range<impl>" }
@@ -87,7 +102,7 @@ where
 			None
 		} else {
 			let value = from.clone();
-			*from = from.clone() + self.step.clone();
+			*from = from.clone().advance(self.step.clone());
 			Some(value)
 		};
 
-- 
2.43.0


From 36858ef1d606a34e778d7e65814be56512b8fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:11 +0000
Subject: [PATCH 09/32] fix: panic properly when std.randint is given an empty
 range

---
 src/runtime/lib/rand.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/lib/rand.rs b/src/runtime/lib/rand.rs
index 226b806..5fdff75 100644
--- a/src/runtime/lib/rand.rs
+++ b/src/runtime/lib/rand.rs
@@ -51,9 +51,13 @@ impl NativeFun for RandInt {
 
 	fn call(&self, context: CallContext) -> Result<Value, Panic> {
 		match context.args() {
+			[ Value::Int(m), n @ Value::Int(upper) ] if m > upper => Err(
+				Panic::value_error(n.copy(), "integer not lower than the lower bound", context.pos)
+			),
 			[ Value::Int(m), Value::Int(n) ] => Ok(Value::Int(
 				RNG.with(|rng| rng.borrow_mut().gen_range(*m..=*n))
 			)),
+			[ Value::Int(_), other ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			[ other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
 			args => Err(Panic::invalid_args(args.len() as u32, 2, context.pos))
 		}
-- 
2.43.0


From 9264b1f61ca8b7457cddeddd39854c501e651540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:12 +0000
Subject: [PATCH 10/32] fix: flush the output of std.print, so that it precedes
 the output of later commands

---
 src/runtime/lib/print.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/lib/print.rs b/src/runtime/lib/print.rs
index 256db16..d2d7d2b 100644
--- a/src/runtime/lib/print.rs
+++ b/src/runtime/lib/print.rs
@@ -54,6 +54,11 @@ impl NativeFun for Print {
 		//writeln!(stdout)
 			//.map_err(|error| Panic::io(error, context.pos))?;
 
+		// Without a line feed, the text would only be written after the output of any
+		// subsequent command.
+		stdout.flush()
+			.map_err(|error| Panic::io(error, context.pos))?;
+
 		Ok(Value::default())
 	}
 }
-- 
2.43.0


From 467770d49e49a671447a2eda1c01cf7d2e76515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:31 +0000
Subject: [PATCH 11/32] fix: return an error from std.export for an empty key,
 instead of crashing

---
 src/runtime/lib/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/lib/env.rs b/src/runtime/lib/env.rs
index ba71061..5c89fd8 100644
--- a/src/runtime/lib/env.rs
+++ b/src/runtime/lib/env.rs
@@ -45,7 +45,7 @@ impl NativeFun for Export {
 		match context.args() {
 			[ k @ Value::String(ref key), v @ Value::String(ref value) ] => {
 				let ret = match () {
-					() if key.contains(b'=') || key.contains(b'\0') => {
+					() if key.is_empty() || key.contains(b'=') || key.contains(b'\0') => {
 						Error::new("invalid export key".into(), k.copy()).into()
 					}
 
-- 
2.43.0


From df1dc4401261ad20a73e38eb51bf794a442aeb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:53 +0000
Subject: [PATCH 12/32] fix: treat [ and { as plain characters in command
 arguments, instead of crashing

---
 src/syntax/lexer/automata/expansion.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/syntax/lexer/automata/expansion.rs b/src/syntax/lexer/automata/expansion.rs
index 14eed91..5e2714c 100644
--- a/src/syntax/lexer/automata/expansion.rs
+++ b/src/syntax/lexer/automata/expansion.rs
@@ -83,13 +83,7 @@ where
 				self.context.produce(ArgExpansion::Percent)
 			}
 
-			Some(b'[') => {
-				todo!() // char class.
-			}
-
-			Some(b'{') => {
-				todo!() // range, collection
-			}
+			// TODO: char class, range, collection. Until then, `[` and `{` are plain characters.
 
 			// Failed to parse expansion.
 			_ => self.context.rollback(self.start)
-- 
2.43.0


From 57b83a85ed8dc0052244b3d6c370b632e5477a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:54 +0000
Subject: [PATCH 13/32] fix: return an error from the unimplemented alias
 builtin, instead of crashing

---
 src/runtime/command/exec/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index c31304d..dc1364f 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -168,7 +168,9 @@ impl Builtin {
 		let mut args = Self::resolve_args(arguments, pos.copy())?;
 
 		match self {
-			Self::Alias => todo!(),
+			Self::Alias => Err(
+				io_error(io::Error::new(io::ErrorKind::Unsupported, "alias is not implemented"))
+			),
 
 			Self::Cd => {
 				let dir = args
-- 
2.43.0


From c22d365ce90bdb8cbad7fa8b91a4bac6bc432dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 14/32] fix: do not deadlock on input literals larger than the
 pipe capacity

---
 src/runtime/command/exec/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index dc1364f..bfae723 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -8,6 +8,7 @@ use std::{
 	io::{self, Write},
 	os::unix::{prelude::{FromRawFd, OsStrExt, ExitStatusExt, IntoRawFd}, process::CommandExt},
 	process,
+	thread,
 };
 
 use crate::io::FileDescriptor;
@@ -349,11 +350,12 @@ impl BasicCommand {
 							let (reader, mut writer) = os_pipe::pipe()
 								.map_err(|error| Error::io(error, pos.copy()))?;
 
-							writer.write_all(source.as_bytes())
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							let mut input = source.as_bytes().to_owned();
+							input.push(b'\n');
 
-							writer.write_all(b"\n")
-								.map_err(|error| Error::io(error, pos.copy()))?;
+							// The pipe has limited capacity, so writing must not block the command from
+							// being spawned.
+							thread::spawn(move || writer.write_all(&input));
 
 							reader
 						} else {
-- 
2.43.0


From 7925ae75d150ed4b9d7eaf67f0f078635a1d64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 15/32] fix: capture the standard error of every command in a
 pipeline

---
 src/runtime/command/exec/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index bfae723..3eed3ff 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -485,7 +485,6 @@ impl Command {
 
 			Command::External { head, tail } => {
 				let mut last_stdout = stdout;
-				let mut last_stderr = stderr;
 
 				let mut tail_children = Vec::new();
 				for cmd in tail.into_vec().into_iter().rev() {
@@ -494,17 +493,18 @@ impl Command {
 					let (pipe_reader, pipe_writer) = os_pipe::pipe()
 						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
 
+					let stderr = stderr.try_clone()
+						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
+
 					let child = cmd.exec(
 						Stdio {
 							stdin: pipe_reader,
 							stdout: last_stdout,
-							stderr: last_stderr,
+							stderr,
 						}
 					)?;
 
 					last_stdout = pipe_writer;
-					last_stderr = os_pipe::dup_stderr()
-						.map_err(|error| Error::io(error, child.pos.copy()))?;
 
 					tail_children.push((child, child_abort_on_error));
 				}
@@ -518,7 +518,7 @@ impl Command {
 					Stdio {
 						stdin,
 						stdout: last_stdout,
-						stderr: last_stderr,
+						stderr,
 					}
 				)?;
 
-- 
2.43.0


From 7d024f1c9c0e233759344c749c7310b25f37ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 16/32] fix: handle commands that cannot be started like any
 other failing command

They used to abort the block regardless of the try operator, discard the errors
of the previous commands, and leave the rest of the pipeline behind.
---
 src/runtime/command/exec/mod.rs | 75 +++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 3eed3ff..cc09c05 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -33,17 +33,36 @@ pub struct ErrorStatus {
 
 
 impl ErrorStatus {
+	/// The status of a command that failed with an IO error.
+	fn io(error: io::Error, pos: SourcePos) -> Self {
+		Self {
+			description: error.to_string(),
+			status: IO_ERROR_STATUS,
+			pos,
+		}
+	}
+
+
+	/// Separate IO errors, which are failures of a single command, from panics.
+	fn from_result<T>(result: Result<T, Error>) -> Result<Result<T, Self>, Panic> {
+		match result {
+			Ok(value) => Ok(Ok(value)),
+			Err(Error::Io { error, pos }) => Ok(Err(Self::io(error, pos))),
+			Err(Error::Panic(panic)) => Err(panic),
+		}
+	}
+
+
 	/// Wait a child process, and return the status.
-	fn wait_child(mut child: Child) -> Option<Self> {
+	fn wait_child(child: Result<Child, Self>) -> Option<Self> {
+		let mut child = match child {
+			Ok(child) => child,
+			Err(error) => return Some(error),
+		};
+
 		let status = match child.process.wait() {
 			Ok(status) => status,
-			Err(error) => return Some(
-				Self {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos: child.pos,
-				}
-			)
+			Err(error) => return Some(Self::io(error, child.pos)),
 		};
 
 		let code = status
@@ -213,7 +232,7 @@ impl Builtin {
 					let process = command.spawn()
 						.map_err(io_error)?;
 
-					Ok(ErrorStatus::wait_child(Child { process, pos }))
+					Ok(ErrorStatus::wait_child(Ok(Child { process, pos })))
 				} else {
 					let error = command.exec();
 					Err(io_error(error))
@@ -473,7 +492,9 @@ impl Command {
 	) -> Result<CommandExec, Error> {
 		match self {
 			Command::Builtin { program, arguments, abort_on_error, pos } => {
-				let error = program.exec(arguments, pos)?;
+				let error = ErrorStatus
+					::from_result(program.exec(arguments, pos))?
+					.unwrap_or_else(Some);
 				let abort = abort_on_error && error.is_some();
 				Ok(
 					CommandExec {
@@ -496,12 +517,14 @@ impl Command {
 					let stderr = stderr.try_clone()
 						.map_err(|error| Error::io(error, cmd.pos.copy()))?;
 
-					let child = cmd.exec(
-						Stdio {
-							stdin: pipe_reader,
-							stdout: last_stdout,
-							stderr,
-						}
+					let child = ErrorStatus::from_result(
+						cmd.exec(
+							Stdio {
+								stdin: pipe_reader,
+								stdout: last_stdout,
+								stderr,
+							}
+						)
 					)?;
 
 					last_stdout = pipe_writer;
@@ -514,12 +537,14 @@ impl Command {
 				let stdin = os_pipe::dup_stdin()
 					.map_err(|error| Error::io(error, head.pos.copy()))?;
 
-				let head_child = head.exec(
-					Stdio {
-						stdin,
-						stdout: last_stdout,
-						stderr,
-					}
+				let head_child = ErrorStatus::from_result(
+					head.exec(
+						Stdio {
+							stdin,
+							stdout: last_stdout,
+							stderr,
+						}
+					)
 				)?;
 
 				let mut abort = false;
@@ -576,11 +601,7 @@ impl Block {
 			Ok(status) => Ok(status),
 			Err(Error::Panic(panic)) => Err(panic),
 			Err(Error::Io { error, pos }) => {
-				let error = ErrorStatus {
-					description: error.to_string(),
-					status: IO_ERROR_STATUS,
-					pos,
-				};
+				let error = ErrorStatus::io(error, pos);
 
 				Ok(Box::new([PipelineErrors::from(error)]))
 			},
-- 
2.43.0


From 05cde938ca4095ad8954934e2865608691ad8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 17/32] fix: report commands ended by a signal with status 128
 + signal, as Bash and Dash do

---
 src/runtime/command/exec/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index cc09c05..3ce8653 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -20,7 +20,7 @@ pub use error::{Panic, Error, PipelineErrors, IntoValue};
 /// Status to be produced when an IO error occurs
 const IO_ERROR_STATUS: i32 = 0x7F;
 /// Offset of a signal status, according to Bash and Dash.
-const SIGNAL_STATUS_OFFSET: i32 = 0xFF;
+const SIGNAL_STATUS_OFFSET: i32 = 0x80;
 
 
 /// Execution status of a single command.
-- 
2.43.0


From 177bc824be73a5c1bc0eac2b9357cdd5e0700000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:56 +0000
Subject: [PATCH 18/32] fix: analyze and apply environment assignments prefixed
 to built-in commands

---
 src/runtime/command/exec/mod.rs | 41 +++++++++++++++++++++++----------
 src/runtime/command/mod.rs      |  5 +++-
 src/semantic/mod.rs             |  7 +++++-
 src/semantic/program/command.rs |  2 ++
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 3ce8653..1573953 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -181,6 +181,7 @@ pub enum Builtin {
 impl Builtin {
 	pub fn exec(
 		self,
+		env: Box<[(Box<OsStr>, Argument)]>,
 		arguments: Box<[Argument]>,
 		pos: SourcePos,
 	) -> Result<Option<ErrorStatus>, Error> {
@@ -216,6 +217,8 @@ impl Builtin {
 
 				let mut command = process::Command::new(cmd);
 
+				set_env(&mut command, env, &pos)?;
+
 				if matches!(self, Self::Exec0 | Self::Spawn0) {
 					let arg0 = args
 						.next()
@@ -280,6 +283,27 @@ pub struct Stdio {
 }
 
 
+/// Set the environment variables assigned to a command.
+fn set_env(
+	command: &mut process::Command,
+	env: Box<[(Box<OsStr>, Argument)]>,
+	pos: &SourcePos,
+) -> Result<(), Error> {
+	for (key, value) in env.into_vec() { // Use vec's owned iterator.
+		let value = value.resolve(pos.copy())?;
+
+		match value.as_ref() {
+			[ value ] => command.env(key, value),
+			other => return Err(
+				Panic::invalid_args("env variable", other.len() as u32, pos.copy()).into()
+			),
+		};
+	}
+
+	Ok(())
+}
+
+
 /// A single command, including possible redirections and try operator.
 #[derive(Debug)]
 pub struct BasicCommand {
@@ -311,16 +335,7 @@ impl BasicCommand {
 			),
 		};
 
-		for (key, value) in self.env.into_vec() { // Use vec's owned iterator.
-			let value = value.resolve(pos.copy())?;
-
-			match value.as_ref() {
-				[ value ] => command.env(key, value),
-				other => return Err(
-					Panic::invalid_args("env variable", other.len() as u32, pos.copy()).into()
-				),
-			};
-		}
+		set_env(&mut command, self.env, &pos)?;
 
 		for argument in self.arguments.into_vec() {
 			let args = argument.resolve(pos.copy())?;
@@ -467,6 +482,8 @@ pub enum Command {
 	Builtin {
 		/// The program to be executed.
 		program: Builtin,
+		/// Key-value pairs of environment variables.
+		env: Box<[(Box<OsStr>, Argument)]>,
 		/// Arguments to the program. The arguments may expand to an arbitrary number of literals.
 		arguments: Box<[Argument]>,
 		/// Whether to abort the command block execution if the command fails.
@@ -491,9 +508,9 @@ impl Command {
 		stderr: os_pipe::PipeWriter,
 	) -> Result<CommandExec, Error> {
 		match self {
-			Command::Builtin { program, arguments, abort_on_error, pos } => {
+			Command::Builtin { program, env, arguments, abort_on_error, pos } => {
 				let error = ErrorStatus
-					::from_result(program.exec(arguments, pos))?
+					::from_result(program.exec(env, arguments, pos))?
 					.unwrap_or_else(Some);
 				let abort = abort_on_error && error.is_some();
 				Ok(
diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index f630e89..dda2328 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -168,7 +168,9 @@ impl Runtime {
 		command: &'static program::Command
 	) -> Result<exec::Command, Panic> {
 		match command {
-			program::Command::Builtin { program, arguments, abort_on_error, pos } => {
+			program::Command::Builtin { program, env, arguments, abort_on_error, pos } => {
+				let env = self.build_env_vars(env)?;
+
 				let mut args = Vec::new();
 				for argument in arguments.iter() {
 					let arguments = self
@@ -180,6 +182,7 @@ impl Runtime {
 				Ok(
 					exec::Command::Builtin {
 						program: program.into(),
+						env,
 						arguments: args.into(),
 						abort_on_error: *abort_on_error,
 						pos: pos.into(),
diff --git a/src/semantic/mod.rs b/src/semantic/mod.rs
index 088cd7a..da47e8b 100644
--- a/src/semantic/mod.rs
+++ b/src/semantic/mod.rs
@@ -575,14 +575,19 @@ impl<'a> Analyzer<'a> {
 			}
 
 			Ok(builtin) => {
+				let env = self.analyze_env(command.head.env);
+
 				let arguments = self.analyze_items(
 					Self::analyze_argument,
 					command.head.arguments.into_vec(), // Use vec's owned iterator.
-				)?;
+				);
+
+				let (env, arguments) = env.zip(arguments)?;
 
 				Some(
 					Command::Builtin {
 						program: builtin,
+						env,
 						arguments,
 						abort_on_error: command.head.abort_on_error,
 						pos: command.head.pos,
diff --git a/src/semantic/program/command.rs b/src/semantic/program/command.rs
index 83db273..903915c 100644
--- a/src/semantic/program/command.rs
+++ b/src/semantic/program/command.rs
@@ -133,6 +133,8 @@ pub struct BasicCommand {
 pub enum Command {
 	Builtin {
 		program: Builtin,
+		/// Key-value pairs of environment variables.
+		env: Box<[(ArgUnit, Argument)]>,
 		arguments: Box<[Argument]>,
 		abort_on_error: bool,
 		pos: SourcePos,
-- 
2.43.0


From cd6e6913652a5b2c33923697e7dbfb522b45e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:33 +0000
Subject: [PATCH 19/32] fix: a failed exec no longer leaves the shell open to
 SIGPIPE

Attempting to exec sets the default action of SIGPIPE in the calling
process. If the program could not be executed, a later write to a closed
pipe (such as the input of a command that could not be started) killed
the shell.
---
 src/runtime/command/exec/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 1573953..01c50fb 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -238,6 +238,7 @@ impl Builtin {
 					Ok(ErrorStatus::wait_child(Ok(Child { process, pos })))
 				} else {
 					let error = command.exec();
+					ignore_sigpipe();
 					Err(io_error(error))
 				}
 			}
@@ -283,6 +284,24 @@ pub struct Stdio {
 }
 
 
+/// Ignore SIGPIPE, so that writing to a closed pipe is an error instead of killing the shell.
+/// That is the initial state, but an attempt to exec leaves the default action set, as it
+/// should be for the executed program, even if it fails.
+fn ignore_sigpipe() {
+	use std::os::raw::c_int;
+
+	const SIGPIPE: c_int = 13;
+	const SIG_IGN: usize = 1;
+
+	extern "C" {
+		fn signal(signum: c_int, handler: usize) -> usize;
+	}
+
+	// SAFETY: ignoring a signal does not install any handler.
+	unsafe { signal(SIGPIPE, SIG_IGN); }
+}
+
+
 /// Set the environment variables assigned to a command.
 fn set_env(
 	command: &mut process::Command,
-- 
2.43.0


From 904b53ae7f7414a01dae6dc8498750499fcb04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:03 +0000
Subject: [PATCH 20/32] fix: imports stay relative to the importing script
 after cd

---
 src/runtime/lib/import.rs | 19 +++++++++++--------
 src/runtime/mod.rs        |  5 ++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/runtime/lib/import.rs b/src/runtime/lib/import.rs
index 59712de..86266df 100644
--- a/src/runtime/lib/import.rs
+++ b/src/runtime/lib/import.rs
@@ -1,6 +1,6 @@
 use std::{
 	io,
-	path::{Path, PathBuf},
+	path::Path,
 	ffi::OsStr,
 	os::unix::ffi::OsStrExt,
 };
@@ -9,9 +9,10 @@ use gc::{Finalize, Trace};
 
 use crate::{
 	fmt,
+	runtime::Runtime,
 	syntax,
 	semantic,
-	symbol::{self, Symbol}
+	symbol::Symbol
 };
 use super::{
 	CallContext,
@@ -33,7 +34,7 @@ impl Import {
 			::resolve_path(
 				module_path,
 				context.pos.path,
-				context.runtime.interner_mut()
+				context.runtime
 			)
 			.map_err(
 				|error| Panic::io(error, context.pos.copy())
@@ -53,21 +54,23 @@ impl Import {
 	fn resolve_path(
 		target_path: &Path,
 		current_path: Symbol,
-		interner: &mut symbol::Interner,
+		runtime: &mut Runtime,
 	) -> io::Result<Symbol> {
-		let mut path_buf = PathBuf::from(
+		// The script path may be relative, and the current directory may have changed.
+		let mut path_buf = runtime.initial_dir.join(
 			OsStr::from_bytes(
-				interner
+				runtime
+					.interner()
 					.resolve(current_path)
 					.expect("failed to resolve symbol")
-			).to_owned()
+			)
 		);
 		path_buf.pop(); // Remove the file name.
 		path_buf.push(target_path);
 
 		let path = path_buf.canonicalize()?;
 
-		let path_symbol = interner.get_or_intern(
+		let path_symbol = runtime.interner_mut().get_or_intern(
 			path
 				.as_os_str()
 				.as_bytes()
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 75bb7c9..77f914f 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -12,7 +12,7 @@ pub mod value;
 #[cfg(test)]
 mod tests;
 
-use std::collections::HashMap;
+use std::{collections::HashMap, env, path::PathBuf};
 
 use crate::symbol::{self, Symbol};
 use super::semantic::program;
@@ -46,6 +46,8 @@ pub struct Runtime {
 	std: Value,
 	interner: symbol::Interner,
 	modules: HashMap<Symbol, Value>,
+	/// The directory the runtime was started in, which relative source paths refer to.
+	initial_dir: PathBuf,
 	/// Command line arguments.
 	args: Value,
 }
@@ -70,6 +72,7 @@ impl Runtime {
 			interner,
 			std: lib::new(),
 			modules: HashMap::new(),
+			initial_dir: env::current_dir().unwrap_or_default(),
 			args: args.into(),
 		}
 	}
-- 
2.43.0


From e048bd2eb5cf5492f4b31095d70a0f371072e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 21/32] fix: std.substr no longer reports wrong types as a
 wrong number of arguments

---
 src/runtime/lib/substr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/lib/substr.rs b/src/runtime/lib/substr.rs
index 94bb90e..91de243 100644
--- a/src/runtime/lib/substr.rs
+++ b/src/runtime/lib/substr.rs
@@ -39,9 +39,9 @@ impl NativeFun for Substr {
                 let result = Self::substr(string.as_ref(), *start, *len);
                 Ok(result.unwrap_or_else(Into::into))
             },
-            [ other, Value::Int(_), Value::Int(_) ] => Err(Panic::type_error(other.copy(), "string", context.pos)),
-            [ Value::String(_), other, Value::Int(_) ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
             [ Value::String(_), Value::Int(_), other ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+            [ Value::String(_), other, _ ] => Err(Panic::type_error(other.copy(), "int", context.pos)),
+            [ other, _, _ ] => Err(Panic::type_error(other.copy(), "string", context.pos)),
             args => Err(Panic::invalid_args(args.len() as u32, 3, context.pos))
         }
     }
-- 
2.43.0


From ade7c266a0d7a2fcb41202042e09ac1b85ade7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 22/32] fix: join of an asynchronous block rejects arguments

---
 src/runtime/command/exec/join.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/command/exec/join.rs b/src/runtime/command/exec/join.rs
index 1fc0d77..f193327 100644
--- a/src/runtime/command/exec/join.rs
+++ b/src/runtime/command/exec/join.rs
@@ -35,6 +35,11 @@ impl NativeFun for Join {
 	fn name(&self) -> &'static str { "<command>.join" }
 
 	fn call(&self, context: CallContext) -> Result<Value, crate::runtime::Panic> {
+		let args = context.args();
+		if !args.is_empty() {
+			return Err(crate::runtime::Panic::invalid_args(args.len() as u32, 0, context.pos));
+		}
+
 		match self.0.borrow_mut().take() {
 			Some(JoinHandle(join_handle)) => {
 				let result = match join_handle.join() {
-- 
2.43.0


From 879a50ea23bfeaa86e3203958c6f525cc57dfc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:26 +0000
Subject: [PATCH 23/32] fix: std.read accepts lines that are not UTF-8

---
 src/runtime/lib/read.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/lib/read.rs b/src/runtime/lib/read.rs
index 7f01922..aa61945 100644
--- a/src/runtime/lib/read.rs
+++ b/src/runtime/lib/read.rs
@@ -1,4 +1,4 @@
-use std::io::{self, Write};
+use std::io::{self, BufRead, Write};
 
 use gc::{Finalize, Trace};
 
@@ -7,6 +7,7 @@ use super::{
 	RustFun,
 	NativeFun,
 	Panic,
+	Str,
 	Value,
 };
 
@@ -19,11 +20,12 @@ struct Read;
 
 impl Read {
 	fn read() -> io::Result<Value> {
-		let mut input = String::new();
+		let mut input = Vec::new(); // Strings may have any bytes.
 
 		io::stdin()
-			.read_line(&mut input)
-			.map(|_| input.into())
+			.lock()
+			.read_until(b'\n', &mut input)
+			.map(|_| Str::from(input).into())
 	}
 }
 
-- 
2.43.0


From 99a31931c7489b859ac33e4c81e6f24e503173c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:22 +0000
Subject: [PATCH 24/32] fix: Report the number of items a single-item word
 expands to, not one less

---
 src/runtime/command/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index dda2328..62981d7 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -356,7 +356,7 @@ impl Runtime {
 		if args.is_empty() {
 			Ok(arg)
 		} else {
-			Err(panic(args.len() as u32))
+			Err(panic(args.len() as u32 + 1)) // The popped one counts too.
 		}
 	}
 
-- 
2.43.0


From f3ff2ce46bbbfcdca52a8cbf3c2f39ec6f98d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:35 +0000
Subject: [PATCH 25/32] fix: Report how many errors are suppressed, not how
 many were shown

---
 src/semantic/error/fmt.rs | 2 +-
 src/syntax/error/fmt.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic/error/fmt.rs b/src/semantic/error/fmt.rs
index b360882..96e7de8 100644
--- a/src/semantic/error/fmt.rs
+++ b/src/semantic/error/fmt.rs
@@ -85,7 +85,7 @@ impl<'a> Display<'a> for Errors {
 					writeln!(
 						f,
 						"{} {}",
-						color::Fg(color::Red, max),
+						color::Fg(color::Red, self.0.len() - max),
 						color::Fg(color::Red, "more supressed semantic errors"),
 					)?;
 
diff --git a/src/syntax/error/fmt.rs b/src/syntax/error/fmt.rs
index 41f446b..6e659d0 100644
--- a/src/syntax/error/fmt.rs
+++ b/src/syntax/error/fmt.rs
@@ -36,7 +36,7 @@ impl<'a> Display<'a> for Errors {
 					writeln!(
 						f,
 						"{} {}",
-						color::Fg(color::Red, max),
+						color::Fg(color::Red, self.0.len() - max),
 						color::Fg(color::Red, "more supressed syntax errors"),
 					)?;
 
-- 
2.43.0


From 333faa18fb5013fcb382a2c66ced6f0f3baaea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 26/32] fix: report an invalid escape sequence of a command
 argument once, and go on after it

---
 src/syntax/lexer/automata/argument.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/syntax/lexer/automata/argument.rs b/src/syntax/lexer/automata/argument.rs
index 94df876..608d9c5 100644
--- a/src/syntax/lexer/automata/argument.rs
+++ b/src/syntax/lexer/automata/argument.rs
@@ -56,9 +56,10 @@ where
 		match (&self, cursor.peek()) {
 			// Escaped character.
 			(&Self { escaping: Some((offset, pos)), .. }, Some(value)) => {
+				self.escaping = None;
+
 				if let Some(c) = C::validate_escape(value) {
 					self.value.push(c);
-					self.escaping = None;
 					Transition::step(self)
 				} else {
 					// Invalid escape sequence.
-- 
2.43.0


From dcf17fecac231f2a0f4e0ade9d9b8685e65db0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 27/32] fix: separate then from what follows an empty block in
 an inline conditional of the tree listing

---
 src/syntax/ast/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/syntax/ast/fmt.rs b/src/syntax/ast/fmt.rs
index dc0c933..5cecafd 100644
--- a/src/syntax/ast/fmt.rs
+++ b/src/syntax/ast/fmt.rs
@@ -266,8 +266,8 @@ impl<'a> Display<'a> for Expr {
 				condition.fmt(f, context.inlined())?;
 				" ".fmt(f)?;
 				Keyword::Then.fmt(f)?;
-				if context.indentation.is_some() {
-					"\n".fmt(f)?;
+				if context.indentation.is_some() || then.is_empty() {
+					step.fmt(f)?;
 				}
 
 				if !then.is_empty() {
-- 
2.43.0


From 2cc4ec9841cc4d3b0a373cdbda11a403d03ffe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 28/32] fix: separate then from what follows an empty block in
 an inline conditional of the program listing

---
 src/semantic/program/fmt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic/program/fmt.rs b/src/semantic/program/fmt.rs
index 7bf216a..2454b04 100644
--- a/src/semantic/program/fmt.rs
+++ b/src/semantic/program/fmt.rs
@@ -256,8 +256,8 @@ impl<'a> Display<'a> for Expr {
 				condition.fmt(f, context.inlined())?;
 				" ".fmt(f)?;
 				Keyword::Then.fmt(f)?;
-				if context.indentation.is_some() {
-					"\n".fmt(f)?;
+				if context.indentation.is_some() || then.0.is_empty() {
+					step.fmt(f)?;
 				}
 
 				if !then.0.is_empty() {
-- 
2.43.0


From 232de63947489e1a23e15f85d11f102de86b788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 29/32] fix: show ? in the program listing for the built-in
 commands that have it

---
 src/semantic/program/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic/program/fmt.rs b/src/semantic/program/fmt.rs
index 2454b04..9f2bc3c 100644
--- a/src/semantic/program/fmt.rs
+++ b/src/semantic/program/fmt.rs
@@ -589,7 +589,7 @@ impl std::fmt::Display for Command {
 					arg.fmt(f)?;
 				}
 
-				if *abort_on_error {
+				if !*abort_on_error {
 					" ".fmt(f)?;
 					CommandOperator::Try.fmt(f)?;
 				}
-- 
2.43.0


From efaf8e50b08a8cfdaa476a375370569044af4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 30/32] fix: wait for the commands already started when a
 pipeline panics while being started

---
 src/runtime/command/exec/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 01c50fb..6e6f7e3 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -62,7 +62,7 @@ impl ErrorStatus {
 
 		let status = match child.process.wait() {
 			Ok(status) => status,
-			Err(error) => return Some(Self::io(error, child.pos)),
+			Err(error) => return Some(Self::io(error, child.pos.copy())),
 		};
 
 		let code = status
@@ -83,7 +83,7 @@ impl ErrorStatus {
 				Self {
 					description: "command returned non-zero".into(),
 					status: code,
-					pos: child.pos,
+					pos: child.pos.copy(),
 				}
 			)
 		}
@@ -488,6 +488,15 @@ pub struct Child {
 }
 
 
+/// A started command is never left behind, even if a panic prevents the pipeline from being
+/// completed.
+impl Drop for Child {
+	fn drop(&mut self) {
+		let _ = self.process.wait();
+	}
+}
+
+
 #[derive(Debug)]
 pub struct CommandExec {
 	pub errors: PipelineErrors,
@@ -541,9 +550,10 @@ impl Command {
 			}
 
 			Command::External { head, tail } => {
+				// Dropping the children waits for them, so that must come after closing their input.
+				let mut tail_children = Vec::new();
 				let mut last_stdout = stdout;
 
-				let mut tail_children = Vec::new();
 				for cmd in tail.into_vec().into_iter().rev() {
 					let child_abort_on_error = cmd.abort_on_error;
 
-- 
2.43.0


From 9ba9a74086e3a5723425414129e6b901e1a467aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 31/32] fix: keep a failing exec from exposing the shell to
 SIGPIPE of unread here-strings

---
 src/runtime/command/exec/mod.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 6e6f7e3..007ebdc 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -302,6 +302,34 @@ fn ignore_sigpipe() {
 }
 
 
+/// Block SIGPIPE in the current thread, so that writing to a closed pipe is an error even while
+/// another thread attempts to exec, which sets the default action for the whole process.
+fn block_sigpipe() {
+	use std::os::raw::{c_int, c_ulong};
+
+	const SIGPIPE: c_int = 13;
+	const SIG_BLOCK: c_int = if cfg!(target_os = "linux") { 0 } else { 1 };
+
+	/// At least as large as the C library's sigset_t, with the same alignment.
+	type SigSet = [c_ulong; 32];
+
+	extern "C" {
+		fn sigemptyset(set: *mut SigSet) -> c_int;
+		fn sigaddset(set: *mut SigSet, signum: c_int) -> c_int;
+		fn pthread_sigmask(how: c_int, set: *const SigSet, old: *mut SigSet) -> c_int;
+	}
+
+	let mut set: SigSet = [0; 32];
+
+	// SAFETY: the set is valid for writing, and null is accepted for the old mask.
+	unsafe {
+		sigemptyset(&mut set);
+		sigaddset(&mut set, SIGPIPE);
+		pthread_sigmask(SIG_BLOCK, &set, std::ptr::null_mut());
+	}
+}
+
+
 /// Set the environment variables assigned to a command.
 fn set_env(
 	command: &mut process::Command,
@@ -408,7 +436,10 @@ impl BasicCommand {
 
 							// The pipe has limited capacity, so writing must not block the command from
 							// being spawned.
-							thread::spawn(move || writer.write_all(&input));
+							thread::spawn(move || {
+								block_sigpipe();
+								writer.write_all(&input)
+							});
 
 							reader
 						} else {
-- 
2.43.0


From f78269e60e2cbb33659d7475745560a12eac81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:57 +0000
Subject: [PATCH 32/32] fix: report a thread that cannot be started as an
 error, instead of crashing

---
 src/runtime/command/exec/mod.rs |  4 ++--
 src/runtime/command/mod.rs      | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/runtime/command/exec/mod.rs b/src/runtime/command/exec/mod.rs
index 007ebdc..bfe96c1 100644
--- a/src/runtime/command/exec/mod.rs
+++ b/src/runtime/command/exec/mod.rs
@@ -436,10 +436,10 @@ impl BasicCommand {
 
 							// The pipe has limited capacity, so writing must not block the command from
 							// being spawned.
-							thread::spawn(move || {
+							thread::Builder::new().spawn(move || {
 								block_sigpipe();
 								writer.write_all(&input)
-							});
+							}).map_err(|error| Error::io(error, pos.copy()))?;
 
 							reader
 						} else {
diff --git a/src/runtime/command/mod.rs b/src/runtime/command/mod.rs
index 62981d7..274fd67 100644
--- a/src/runtime/command/mod.rs
+++ b/src/runtime/command/mod.rs
@@ -53,17 +53,17 @@ impl Runtime {
 				let (mut stderr_read, stderr_write) = os_pipe::pipe()
 					.map_err(|error| Panic::io(error, pos.copy()))?;
 
-				let stdout_reader = thread::spawn(move || {
+				let stdout_reader = thread::Builder::new().spawn(move || {
 					let mut data = Vec::with_capacity(512);
 					stdout_read.read_to_end(&mut data)?;
 					Ok(data)
-				});
+				}).map_err(|error| Panic::io(error, pos.copy()))?;
 
-				let stderr_reader = thread::spawn(move || {
+				let stderr_reader = thread::Builder::new().spawn(move || {
 					let mut data = Vec::with_capacity(512);
 					stderr_read.read_to_end(&mut data)?;
 					Ok(data)
-				});
+				}).map_err(|error| Panic::io(error, pos.copy()))?;
 
 				let errors = command_block
 					.exec(
@@ -123,12 +123,12 @@ impl Runtime {
 					pub static JOIN: Value = "join".into();
 				}
 
-				let join_handle = std::thread::spawn(
+				let join_handle = thread::Builder::new().spawn(
 					|| command_block.exec(
 						os_pipe::dup_stdout,
 						os_pipe::dup_stderr,
 					)
-				);
+				).map_err(|error| Panic::io(error, pos.copy()))?;
 
 				let join_handle = exec::Join
 					::new(join_handle)
-- 
2.43.0

