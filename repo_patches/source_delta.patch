From af5ed2fd532dc2fcf1486bdfad123665873e0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 01/33] fix: memory.copy, memory.fill and memory.init treat
 their operands as unsigned and of the memory's index type

The operands were popped as i32 whatever the memory's index type, which
underflowed the stack with memory64, sign-extended addresses of 2 GiB and
above, and overflowed in memory.init's bounds check.
---
 crates/parser/src/visit.rs                  |  6 +-
 crates/tinywasm/src/interpreter/executor.rs | 69 ++++++++++++---------
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index dae9ff2..a450c1a 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -375,10 +375,8 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
         global [] => [Addr] { visit_global_get(global_index: u32) => GlobalGet }
         memory_index [] => [Addr] { visit_memory_size(memory: u32) => MemorySize }
         memory_index [Addr] => [Addr] { visit_memory_grow(memory: u32) => MemoryGrow }
-        memory_index [Addr, S32, Addr] => [] {
-            visit_memory_init(data_index: u32, memory: u32) => MemoryInit,
-            visit_memory_fill(memory: u32) => MemoryFill,
-        }
+        memory_index [Addr, S32, S32] => [] { visit_memory_init(data_index: u32, memory: u32) => MemoryInit }
+        memory_index [Addr, S32, Addr] => [] { visit_memory_fill(memory: u32) => MemoryFill }
         table [Addr] => [S32] { visit_table_get(table: u32) => TableGet }
         table [Addr, S32] => [] { visit_table_set(table: u32) => TableSet }
         table [] => [Addr] { visit_table_size(table: u32) => TableSize }
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 739c136..ebfacec 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1291,74 +1291,73 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
     }
 
     fn exec_memory_copy(&mut self, dst_mem: u32, src_mem: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let src = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
         let dst_mem_addr = self.module.resolve_mem_addr(dst_mem);
+        let src_mem_addr = self.module.resolve_mem_addr(src_mem);
+        let dst_arch = self.store.state.get_mem(dst_mem_addr).kind.arch();
+        let src_arch = self.store.state.get_mem(src_mem_addr).kind.arch();
+        let len_arch =
+            if dst_arch == MemoryArch::I32 || src_arch == MemoryArch::I32 { MemoryArch::I32 } else { MemoryArch::I64 };
+        let size = self.pop_memory_operand(len_arch)?;
+        let src = self.pop_memory_operand(src_arch)?;
+        let dst = self.pop_memory_operand(dst_arch)?;
 
         if dst_mem == src_mem {
             // copy within the same memory
             let mem = self.store.state.get_mem_mut(dst_mem_addr);
-            mem.copy_within(dst as usize, src as usize, size as usize)?;
+            mem.copy_within(dst, src, size)?;
         } else {
             // copy between two memories
-            let src_mem_addr = self.module.resolve_mem_addr(src_mem);
             let (dst_memory, src_memory) = self.store.state.get_mems_mut(dst_mem_addr, src_mem_addr);
-            dst_memory.copy_from_memory(dst as usize, src_memory, src as usize, size as usize)?;
+            dst_memory.copy_from_memory(dst, src_memory, src, size)?;
         }
         Ok(())
     }
 
     fn exec_memory_fill(&mut self, addr: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
+        let arch = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).kind.arch();
+        let size = self.pop_memory_operand(arch)?;
         let val = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let dst = self.pop_memory_operand(arch)?;
         self.exec_memory_fill_impl(addr, dst, val as u8, size)
     }
 
     fn exec_memory_fill_imm(&mut self, addr: u32, val: u8, size: i32) -> Result<(), Trap> {
-        let dst = i32::stack_pop(&mut self.store.value_stack);
-        self.exec_memory_fill_impl(addr, dst, val, size)
+        let arch = self.store.state.get_mem(self.module.resolve_mem_addr(addr)).kind.arch();
+        let dst = self.pop_memory_operand(arch)?;
+        self.exec_memory_fill_impl(addr, dst, val, size as u32 as usize)
     }
 
-    fn exec_memory_fill_impl(&mut self, addr: u32, dst: i32, val: u8, size: i32) -> Result<(), Trap> {
+    fn exec_memory_fill_impl(&mut self, addr: u32, dst: usize, val: u8, size: usize) -> Result<(), Trap> {
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(addr));
-        if mem.inner.fill(dst as usize, size as usize, val).is_none() {
+        if mem.inner.fill(dst, size, val).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds {
-                offset: dst as usize,
-                len: size as usize,
-                max: self.store.state.get_mem(self.module.resolve_mem_addr(addr)).inner.len(),
-            });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
 
     fn exec_memory_init(&mut self, data_index: u32, mem_index: u32) -> Result<(), Trap> {
-        let size = i32::stack_pop(&mut self.store.value_stack);
-        let offset = i32::stack_pop(&mut self.store.value_stack);
-        let dst = i32::stack_pop(&mut self.store.value_stack);
+        let mem_addr = self.module.resolve_mem_addr(mem_index);
+        let size = self.pop_memory_operand(MemoryArch::I32)?;
+        let offset = self.pop_memory_operand(MemoryArch::I32)?;
+        let dst = self.pop_memory_operand(self.store.state.get_mem(mem_addr).kind.arch())?;
 
         let data = &self.store.state.data[self.module.resolve_data_addr(data_index) as usize];
-        let mem = &mut self.store.state.memories[self.module.resolve_mem_addr(mem_index) as usize];
-        let data_len = data.data.as_ref().map_or(0, |d| d.len());
-        if ((size + offset) as usize > data_len) || ((dst + size) as usize > mem.inner.len()) {
+        let mem = &mut self.store.state.memories[mem_addr as usize];
+        let data = data.data.as_deref().unwrap_or(&[]);
+        let in_bounds = |start: usize, max: usize| start.checked_add(size).is_some_and(|end| end <= max);
+        if !in_bounds(offset, data.len()) || !in_bounds(dst, mem.inner.len()) {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: offset as usize, len: size as usize, max: data_len });
+            return Err(Trap::MemoryOutOfBounds { offset, len: size, max: data.len() });
         }
 
         if size == 0 {
             return Ok(());
         }
 
-        let Some(data) = &data.data else {
-            cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: 0, len: 0, max: 0 });
-        };
-
-        if mem.inner.write_all(dst as usize, &data[offset as usize..((offset + size) as usize)]).is_none() {
+        if mem.inner.write_all(dst, &data[offset..offset + size]).is_none() {
             cold_path();
-            return Err(Trap::MemoryOutOfBounds { offset: dst as usize, len: size as usize, max: mem.inner.len() });
+            return Err(Trap::MemoryOutOfBounds { offset: dst, len: size, max: mem.inner.len() });
         }
         Ok(())
     }
@@ -1536,6 +1535,14 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
     }
 
+    fn pop_memory_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
+        let value = match arch {
+            MemoryArch::I32 => <i32>::stack_pop(&mut self.store.value_stack) as u32 as u64,
+            MemoryArch::I64 => <i64>::stack_pop(&mut self.store.value_stack) as u64,
+        };
+        usize::try_from(value).map_err(|_| Trap::MemoryOutOfBounds { offset: usize::MAX, len: 1, max: usize::MAX })
+    }
+
     fn pop_table_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
         let value = match arch {
             MemoryArch::I32 => <i32>::stack_pop(&mut self.store.value_stack) as u32 as u64,
-- 
2.43.0


From 6ecfe27348bdde270351a7e47d512be9648235b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 02/33] fix: tail calls to host functions return from the
 calling function

return_call and return_call_indirect to a host function went on with the
next instruction of the caller instead of returning its results.
---
 crates/tinywasm/src/interpreter/executor.rs | 35 +++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index ebfacec..299ff51 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -225,9 +225,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             Call(v) => { self.exec_call_direct(*v)?; return Ok(None); }
             CallSelf => { self.exec_call_self()?; return Ok(None); }
             CallIndirect(ty, table) => { self.exec_call_indirect::<false>(*ty, *table)?; return Ok(None); }
-            ReturnCall(v) => { self.exec_return_call_direct(*v)?; return Ok(None); }
+            ReturnCall(v) => { return Ok(self.exec_return_call_direct(*v)?.then_some(())); }
             ReturnCallSelf => { self.exec_return_call_self()?; return Ok(None); }
-            ReturnCallIndirect(ty, table) => { self.exec_call_indirect::<true>(*ty, *table)?; return Ok(None); }
+            ReturnCallIndirect(ty, table) => { return Ok(self.exec_call_indirect::<true>(*ty, *table)?.then_some(())); }
             Jump(ip) => { self.cf.instr_ptr = *ip as usize; return Ok(None); }
             JumpIfZero32(ip) => if self.exec_jump_zero_32(*ip) { return Ok(None) },
             JumpIfNonZero32(ip) => if self.exec_jump_non_zero_32(*ip) { return Ok(None) },
@@ -985,12 +985,19 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         }
     }
 
-    fn exec_return_call_direct(&mut self, v: u32) -> Result<(), Trap> {
+    /// Executes a direct tail call, returning whether the outermost function returned.
+    fn exec_return_call_direct(&mut self, v: u32) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
         let addr = self.module.resolve_func_addr(v);
         match self.store.state.get_func(addr) {
-            crate::FunctionInstance::Wasm(wasm_func) => self.exec_return_call(wasm_func.clone(), addr),
-            crate::FunctionInstance::Host(host_func) => self.exec_call_host(host_func.clone()),
+            crate::FunctionInstance::Wasm(wasm_func) => {
+                self.exec_return_call(wasm_func.clone(), addr)?;
+                Ok(false)
+            }
+            crate::FunctionInstance::Host(host_func) => {
+                self.exec_call_host(host_func.clone())?;
+                Ok(self.exec_return())
+            }
         }
     }
 
@@ -1019,7 +1026,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         Ok(())
     }
 
-    fn exec_call_indirect<const IS_RETURN_CALL: bool>(&mut self, type_addr: u32, table_addr: u32) -> Result<(), Trap> {
+    /// Executes an indirect call, returning whether the outermost function returned.
+    fn exec_call_indirect<const IS_RETURN_CALL: bool>(
+        &mut self,
+        type_addr: u32,
+        table_addr: u32,
+    ) -> Result<bool, Trap> {
         self.charge_call_fuel(FUEL_COST_CALL_TOTAL);
 
         // verify that the table is of the right type, this should be validated by the parser already
@@ -1050,9 +1062,10 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                 }
 
                 match IS_RETURN_CALL {
-                    true => self.exec_return_call(wasm_func.clone(), func_ref),
-                    false => self.exec_call(wasm_func.clone(), func_ref),
+                    true => self.exec_return_call(wasm_func.clone(), func_ref)?,
+                    false => self.exec_call(wasm_func.clone(), func_ref)?,
                 }
+                Ok(false)
             }
             crate::FunctionInstance::Host(host_func) => {
                 if host_func.ty != *call_ty {
@@ -1063,7 +1076,11 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
                     });
                 }
 
-                self.exec_call_host(host_func.clone())
+                self.exec_call_host(host_func.clone())?;
+                match IS_RETURN_CALL {
+                    true => Ok(self.exec_return()),
+                    false => Ok(false),
+                }
             }
         }
     }
-- 
2.43.0


From 12e7b2bc75d8372e9753a2e56de3d7b5e658aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 03/33] fix: memory.copy between two imports of the same memory

The memories were compared by index rather than by store address, so a
memory imported twice was borrowed twice.
---
 crates/tinywasm/src/interpreter/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 299ff51..cadd998 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1318,7 +1318,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let src = self.pop_memory_operand(src_arch)?;
         let dst = self.pop_memory_operand(dst_arch)?;
 
-        if dst_mem == src_mem {
+        if dst_mem_addr == src_mem_addr {
             // copy within the same memory
             let mem = self.store.state.get_mem_mut(dst_mem_addr);
             mem.copy_within(dst, src, size)?;
-- 
2.43.0


From 30684ea597847a0d78d40fe870c498f5e5562360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 04/33] fix: table.fill stores the reference it was given

The reference on the stack is a store address already; it was resolved a
second time as a function index of the calling module.
---
 crates/tinywasm/src/instance.rs             |  5 -----
 crates/tinywasm/src/interpreter/executor.rs |  2 +-
 crates/tinywasm/src/store/table.rs          | 20 +-------------------
 3 files changed, 2 insertions(+), 25 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 8cff310..68397ba 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -77,11 +77,6 @@ impl ModuleInstance {
         *self.0.func_type_idxs.get(addr as usize).unwrap_or_else(|| unreachable!("invalid function address: {addr}"))
     }
 
-    #[inline]
-    pub(crate) fn func_addrs(&self) -> &[FuncAddr] {
-        &self.0.func_addrs
-    }
-
     /// resolve a function address to the global store address
     #[inline]
     pub(crate) fn resolve_func_addr(&self, addr: FuncAddr) -> FuncAddr {
diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index cadd998..b545f74 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1549,7 +1549,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let n = self.pop_table_operand(arch)?;
         let val = <ValueRef>::stack_pop(&mut self.store.value_stack);
         let i = self.pop_table_operand(arch)?;
-        self.store.state.get_table_mut(table_addr).fill(self.module.func_addrs(), i, n, val.addr().into())
+        self.store.state.get_table_mut(table_addr).fill(i, n, val.addr().into())
     }
 
     fn pop_memory_operand(&mut self, arch: MemoryArch) -> Result<usize, Trap> {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index d5f1019..c044bf8 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -54,8 +54,7 @@ impl TableInstance {
         })
     }
 
-    pub(crate) fn fill(&mut self, func_addrs: &[u32], addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
-        let val = val.map(|addr| self.resolve_func_ref(func_addrs, addr));
+    pub(crate) fn fill(&mut self, addr: usize, len: usize, val: TableElement) -> Result<(), Trap> {
         let range = self.checked_range(addr, len)?;
         self.elements[range].fill(val);
         Ok(())
@@ -105,16 +104,6 @@ impl TableInstance {
         self.elements.len()
     }
 
-    fn resolve_func_ref(&self, func_addrs: &[u32], addr: Addr) -> Addr {
-        if self.kind.element_type != WasmType::RefFunc {
-            return addr;
-        }
-
-        *func_addrs
-            .get(addr as usize)
-            .expect("error initializing table: function not found. This should have been caught by the validator")
-    }
-
     pub(crate) fn init(&mut self, offset: usize, init: &[TableElement]) -> Result<(), Trap> {
         let range = self.checked_range(offset, init.len())?;
         self.elements[range].copy_from_slice(init);
@@ -145,13 +134,6 @@ impl TableElement {
             Self::Initialized(addr) => Some(*addr),
         }
     }
-
-    pub(crate) fn map(self, f: impl FnOnce(Addr) -> Addr) -> Self {
-        match self {
-            Self::Uninitialized => Self::Uninitialized,
-            Self::Initialized(addr) => Self::Initialized(f(addr)),
-        }
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1888cfb269a5343dedcba3fb1e18fbe548f2bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 05/33] fix: a trapping active segment stops instantiation
 there

A trapping element segment did not keep the data segments from being
written, and the segments from the trapping one on had no instance, so that
functions of the failed instance that remain reachable through a shared
table panicked when they used them.
---
 crates/tinywasm/src/instance.rs  |  6 ++--
 crates/tinywasm/src/store/mod.rs | 51 ++++++++++++++++----------------
 2 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 68397ba..564021f 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -184,8 +184,8 @@ impl ModuleInstance {
         store.init_globals(&mut addrs.globals, &module.globals, &addrs.funcs)?;
         let (elem_addrs, elem_trapped) =
             store.init_elements(&addrs.tables, &addrs.funcs, &addrs.globals, &module.elements)?;
-        let (data_addrs, data_trapped) =
-            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data)?;
+        let (data_addrs, trapped) =
+            store.init_data(&addrs.memories, &addrs.globals, &addrs.funcs, &module.data, elem_trapped)?;
 
         let instance = ModuleInstanceInner {
             store_id: store.id(),
@@ -205,7 +205,7 @@ impl ModuleInstance {
         let instance = ModuleInstance(Rc::new(instance));
         store.add_instance(instance.clone());
 
-        if let Some(trap) = elem_trapped.or(data_trapped) {
+        if let Some(trap) = trapped {
             cold_path();
             return Err(trap.into());
         }
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 61b09ef..60b4504 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -354,7 +354,8 @@ impl Store {
         elements: &[Element],
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let elem_count = self.state.elements.len();
-        let mut elem_addrs = Vec::with_capacity(elem_count);
+        let mut elem_addrs = Vec::with_capacity(elements.len());
+        let mut trapped = None;
         for (i, element) in elements.iter().enumerate() {
             let init = element
                 .items
@@ -369,6 +370,9 @@ impl Store {
                 // this one is not available to the runtime but needs to be initialized to declare references
                 ElementKind::Declared => None, // a. Execute the instruction elm.drop i
 
+                // a previous segment trapped, so this one is neither executed nor dropped
+                ElementKind::Active { .. } if trapped.is_some() => Some(init),
+
                 // this one is active, so we need to initialize it (essentially a `table.init` instruction)
                 ElementKind::Active { offset, table } => {
                     let offset = self.eval_size_const(offset, global_addrs, func_addrs)?;
@@ -386,19 +390,15 @@ impl Store {
                     // This isn't mentioned in the spec, but the "unofficial" testsuite has a test for it:
                     // https://github.com/WebAssembly/testsuite/blob/5a1a590603d81f40ef471abba70a90a9ae5f4627/linking.wast#L264-L276
                     // I have NO IDEA why this is allowed, but it is.
-                    let Ok(offset) = usize::try_from(offset) else {
-                        return Ok((
-                            elem_addrs.into_boxed_slice(),
-                            Some(Trap::TableOutOfBounds { offset: usize::MAX, len: init.len(), max: table.size() }),
-                        ));
-                    };
-
-                    if let Err(trap) = table.init(offset, &init) {
-                        return Ok((elem_addrs.into_boxed_slice(), Some(trap)));
+                    let offset = usize::try_from(offset).unwrap_or(usize::MAX);
+                    match table.init(offset, &init) {
+                        // f. Execute the instruction elm.drop i
+                        Ok(()) => None,
+                        Err(trap) => {
+                            trapped = Some(trap);
+                            Some(init)
+                        }
                     }
-
-                    // f. Execute the instruction elm.drop i
-                    None
                 }
             };
 
@@ -406,22 +406,24 @@ impl Store {
             elem_addrs.push((i + elem_count) as Addr);
         }
 
-        // this should be optimized out by the compiler
-        Ok((elem_addrs.into_boxed_slice(), None))
+        Ok((elem_addrs.into_boxed_slice(), trapped))
     }
 
     /// Add data to the store, returning their addresses in the store
+    /// Active segments are only executed if instantiation has not trapped yet
     pub(crate) fn init_data(
         &mut self,
         mem_addrs: &[MemAddr],
         global_addrs: &[Addr],
         func_addrs: &[FuncAddr],
         data: &[Data],
+        mut trapped: Option<Trap>,
     ) -> Result<(Box<[Addr]>, Option<Trap>)> {
         let data_count = self.state.data.len();
-        let mut data_addrs = Vec::with_capacity(data_count);
+        let mut data_addrs = Vec::with_capacity(data.len());
         for (i, data) in data.iter().enumerate() {
             let data_val = match &data.kind {
+                tinywasm_types::DataKind::Active { .. } if trapped.is_some() => Some(data.data.to_vec()),
                 tinywasm_types::DataKind::Active { mem: mem_addr, offset } => {
                     let Some(mem_addr) = mem_addrs.get(*mem_addr as usize) else {
                         return Err(Error::Other(format!("memory {mem_addr} not found for data segment {i}")));
@@ -436,14 +438,12 @@ impl Store {
                     match mem.inner.write_all(offset, &data.data) {
                         Some(()) => None,
                         None => {
-                            return Ok((
-                                data_addrs.into_boxed_slice(),
-                                Some(crate::Trap::MemoryOutOfBounds {
-                                    offset,
-                                    len: data.data.len(),
-                                    max: mem.inner.len(),
-                                }),
-                            ));
+                            trapped = Some(crate::Trap::MemoryOutOfBounds {
+                                offset,
+                                len: data.data.len(),
+                                max: mem.inner.len(),
+                            });
+                            Some(data.data.to_vec())
                         }
                     }
                 }
@@ -454,8 +454,7 @@ impl Store {
             data_addrs.push((i + data_count) as Addr);
         }
 
-        // this should be optimized out by the compiler
-        Ok((data_addrs.into_boxed_slice(), None))
+        Ok((data_addrs.into_boxed_slice(), trapped))
     }
 
     pub(crate) fn add_func(&mut self, func: FunctionInstance) -> FuncAddr {
-- 
2.43.0


From 5089e606e5b29ee04cd5ad8be7f09bb0dd207e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 06/33] fix: honour table initializer expressions

The initializer of a table was validated and then dropped, so the table
started out with null references.
---
 crates/parser/src/module.rs        | 21 ++++++++++++++----
 crates/tinywasm/src/instance.rs    |  7 +++++-
 crates/tinywasm/src/store/mod.rs   | 35 +++++++++++++++++++++---------
 crates/tinywasm/src/store/table.rs |  1 +
 crates/types/src/archive.rs        |  2 +-
 crates/types/src/lib.rs            |  5 +++++
 6 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/crates/parser/src/module.rs b/crates/parser/src/module.rs
index 05811ec..8a7e997 100644
--- a/crates/parser/src/module.rs
+++ b/crates/parser/src/module.rs
@@ -52,6 +52,7 @@ pub(crate) struct ModuleReader<'a> {
     pub(crate) code: Vec<FunctionCode>,
     pub(crate) globals: Box<[Global]>,
     pub(crate) table_types: Box<[TableType]>,
+    pub(crate) table_inits: Box<[Option<Box<[ConstInstruction]>>]>,
     pub(crate) memory_types: Box<[MemoryType]>,
     pub(crate) imports: Box<[Import]>,
     pub(crate) data: Box<[Data]>,
@@ -128,18 +129,29 @@ impl<'a> ModuleReader<'a> {
                 if let Some(validator) = validator.as_mut() {
                     validator.table_section(&reader)?;
                 }
-                self.table_types = reader
+                let (types, inits): (Vec<_>, Vec<_>) = reader
                     .into_iter()
                     .map(|table| {
                         let table = table?;
                         let element_type = convert_reftype(table.ty.element_type)?;
-                        Ok(if table.ty.table64 {
+                        let ty = if table.ty.table64 {
                             TableType::new64(element_type, table.ty.initial, table.ty.maximum)
                         } else {
                             TableType::new(element_type, table.ty.initial, table.ty.maximum)
-                        })
+                        };
+                        let init = match table.init {
+                            wasmparser::TableInit::RefNull => None,
+                            wasmparser::TableInit::Expr(expr) => {
+                                Some(process_const_operators(expr.get_operators_reader())?)
+                            }
+                        };
+                        Ok((ty, init))
                     })
-                    .collect::<Result<_>>()?;
+                    .collect::<Result<Vec<_>>>()?
+                    .into_iter()
+                    .unzip();
+                self.table_types = types.into();
+                self.table_inits = inits.into();
             }
             Payload::MemorySection(reader) => {
                 check_section("memory", !self.memory_types.is_empty())?;
@@ -477,6 +489,7 @@ impl<'a> ModuleReader<'a> {
             func_type_idxs,
             globals: self.globals,
             table_types: self.table_types,
+            table_inits: self.table_inits,
             imports: self.imports,
             start_func: self.start_func,
             data: self.data,
diff --git a/crates/tinywasm/src/instance.rs b/crates/tinywasm/src/instance.rs
index 564021f..366c856 100644
--- a/crates/tinywasm/src/instance.rs
+++ b/crates/tinywasm/src/instance.rs
@@ -167,7 +167,12 @@ impl ModuleInstance {
         let idx = store.next_module_instance_idx();
         let mut addrs = imports.unwrap_or_default().link(store, module)?;
         addrs.funcs.extend(store.init_funcs(&module.funcs, idx));
-        addrs.tables.extend(store.init_tables(&module.table_types)?);
+        addrs.tables.extend(store.init_tables(
+            &module.table_types,
+            &module.table_inits,
+            &addrs.globals,
+            &addrs.funcs,
+        )?);
         match module.local_memory_allocation {
             LocalMemoryAllocation::Skip => {
                 #[cfg(feature = "guest-debug")]
diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index 60b4504..ab95494 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -271,11 +271,21 @@ impl Store {
     }
 
     /// Add tables to the store, returning their addresses in the store
-    pub(crate) fn init_tables(&mut self, tables: &[TableType]) -> Result<impl ExactSizeIterator<Item = TableAddr>> {
+    pub(crate) fn init_tables(
+        &mut self,
+        tables: &[TableType],
+        inits: &[Option<Box<[ConstInstruction]>>],
+        global_addrs: &[Addr],
+        func_addrs: &[FuncAddr],
+    ) -> Result<impl ExactSizeIterator<Item = TableAddr> + use<>> {
         let start = self.state.tables.len() as TableAddr;
         self.state.tables.reserve_exact(tables.len());
-        for &table in tables {
-            self.state.tables.push(TableInstance::new(table)?);
+        for (i, &table) in tables.iter().enumerate() {
+            let init = match inits.get(i) {
+                Some(Some(init)) => self.const_ref(init, global_addrs, func_addrs)?,
+                _ => None,
+            };
+            self.state.tables.push(TableInstance::new_with_init(table, init.into())?);
         }
         Ok(start..start + tables.len() as TableAddr)
     }
@@ -323,15 +333,20 @@ impl Store {
         Ok(())
     }
 
+    /// Evaluate a constant expression that yields a reference
+    fn const_ref(&self, expr: &[ConstInstruction], globals: &[Addr], funcs: &[FuncAddr]) -> Result<Option<u32>> {
+        match self.eval_const(expr, globals, funcs)? {
+            TinyWasmValue::ValueRef(v) => Ok(v.addr()),
+            other => {
+                cold_path();
+                Err(Error::Other(format!("expected ref type, got {other:?}")))
+            }
+        }
+    }
+
     fn elem_addr(&self, item: &ElementItem, globals: &[Addr], funcs: &[FuncAddr]) -> Result<Option<u32>> {
         match item {
-            ElementItem::Expr(expr) => match self.eval_const(expr, globals, funcs)? {
-                TinyWasmValue::ValueRef(v) => Ok(v.addr()),
-                other => {
-                    cold_path();
-                    Err(Error::Other(format!("expected ref type, got {other:?}")))
-                }
-            },
+            ElementItem::Expr(expr) => self.const_ref(expr, globals, funcs),
             ElementItem::Func(addr) => match funcs.get(*addr as usize) {
                 Some(func_addr) => Ok(Some(*func_addr)),
                 None => {
diff --git a/crates/tinywasm/src/store/table.rs b/crates/tinywasm/src/store/table.rs
index c044bf8..7718f85 100644
--- a/crates/tinywasm/src/store/table.rs
+++ b/crates/tinywasm/src/store/table.rs
@@ -15,6 +15,7 @@ pub(crate) struct TableInstance {
 }
 
 impl TableInstance {
+    #[cfg(test)]
     pub(crate) fn new(kind: TableType) -> Result<Self> {
         Self::new_with_init(kind, TableElement::Uninitialized)
     }
diff --git a/crates/types/src/archive.rs b/crates/types/src/archive.rs
index 48dc53f..3f00248 100644
--- a/crates/types/src/archive.rs
+++ b/crates/types/src/archive.rs
@@ -7,7 +7,7 @@ use crate::Module;
 #[rustfmt::skip]
 const TWASM_MAGIC: [u8; 16] = [ TWASM_MAGIC_PREFIX[0], TWASM_MAGIC_PREFIX[1], TWASM_MAGIC_PREFIX[2], TWASM_MAGIC_PREFIX[3], TWASM_VERSION[0], TWASM_VERSION[1], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
 const TWASM_MAGIC_PREFIX: &[u8; 4] = b"TWAS";
-const TWASM_VERSION: &[u8; 2] = b"04";
+const TWASM_VERSION: &[u8; 2] = b"05";
 
 fn validate_magic(wasm: &[u8]) -> Result<usize, TwasmError> {
     if wasm.len() < TWASM_MAGIC.len() || &wasm[..TWASM_MAGIC_PREFIX.len()] != TWASM_MAGIC_PREFIX {
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index fcac23c..6f8a612 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -104,6 +104,11 @@ pub struct ModuleInner {
     /// Corresponds to the `table` section of the original WebAssembly module.
     pub table_types: Box<[TableType]>,
 
+    /// Initializer expressions of the module's tables, parallel to `table_types`.
+    ///
+    /// Tables without an explicit initializer start out with null references.
+    pub table_inits: Box<[Option<Box<[ConstInstruction]>>]>,
+
     /// Memory components of the WebAssembly module used to initialize memories.
     ///
     /// Corresponds to the `memory` section of the original WebAssembly module.
-- 
2.43.0


From a4a2522ea6b2b37a3f11fb84b8ab023e93ea910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 07/33] fix: rewrite shift pairs to the sign extension they
 compute

(x << n) >> n sign-extends the low (width - n) bits, not the low n.
---
 crates/parser/src/optimize.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index 80dfa0d..b346234 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -105,7 +105,7 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet32(local), Const32(c)] => BinOpLocalConst32(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal32(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 8), Const32(8)] => [LocalGet32(local), I32Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 24), Const32(24)] => [LocalGet32(local), I32Extend8S]);
                     rewrite!(instrs, i, [BinOpLocalConst32(BinOp::IShl, local, 16), Const32(16)] => [LocalGet32(local), I32Extend16S]);
                 }
             }
@@ -126,8 +126,8 @@ fn rewrite(
                 rewrite!(instrs, i, [LocalGet64(local), Const64(c)] => BinOpLocalConst64(op, local, c));
                 rewrite!(instrs, i, [GlobalGet(global)] => BinOpStackGlobal64(op, global));
                 if matches!(op, BinOp::IShrS) {
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 8), Const64(8)] => [LocalGet64(local), I64Extend8S]);
-                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 16), Const64(16)] => [LocalGet64(local), I64Extend16S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 56), Const64(56)] => [LocalGet64(local), I64Extend8S]);
+                    rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 48), Const64(48)] => [LocalGet64(local), I64Extend16S]);
                     rewrite!(instrs, i, [BinOpLocalConst64(BinOp::IShl, local, 32), Const64(32)] => [LocalGet64(local), I64Extend32S]);
                 }
             }
-- 
2.43.0


From e686f2382785f2aadb1f2f9be1186ef191541562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 08/33] fix: fused multiply-add stores pop a 64-bit address for
 memory64

---
 crates/tinywasm/src/interpreter/executor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index b545f74..19bb40a 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1185,10 +1185,9 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let rhs = T::stack_pop(&mut self.store.value_stack);
         let lhs = T::stack_pop(&mut self.store.value_stack);
         let acc = T::stack_pop(&mut self.store.value_stack);
-        let addr = i32::stack_pop(&mut self.store.value_stack);
         let fma = acc + lhs * rhs;
         let mem = self.store.state.get_mem_mut(self.module.resolve_mem_addr(m.mem_addr()));
-        let addr = mem.effective_addr_32::<N>(addr as u32, m.offset())?;
+        let addr = Self::pop_memory_addr::<N>(&mut self.store.value_stack, mem, m.offset())?;
         fma.store_at(&mut *mem.inner, addr)?;
         Ok(())
     }
-- 
2.43.0


From 445aaf4053da92c646ffd7a3f36b789f1fc753f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 09/33] fix: accept untyped select of polymorphic operands in
 unreachable code

The width of the selected value is not known there, so what consumes it may
expect another one than was assumed.
---
 crates/parser/src/visit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index a450c1a..9f5142d 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -930,7 +930,7 @@ impl FunctionBuilder<'_> {
         Ok(())
     }
 
-    /// Pops an operand, allowing a polymorphic value at an unreachable frame base.
+    /// Pops an operand, allowing polymorphic values in unreachable code.
     fn pop_expect(&mut self, expected: OperandSize) -> Result<()> {
         let frame_height = self.control_stack.last().map_or(0, |frame| frame.height);
         if self.operand_stack.len() == frame_height && self.is_unreachable() {
@@ -940,7 +940,7 @@ impl FunctionBuilder<'_> {
             .operand_stack
             .pop()
             .ok_or_else(|| crate::ParseError::Other("logical operand stack underflow".into()))?;
-        if actual != expected {
+        if actual != expected && !self.is_unreachable() {
             return Err(crate::ParseError::Other("logical operand width mismatch".into()));
         }
         match actual {
-- 
2.43.0


From 6e3bda10eea768b2b80fa4f891bf199334c6b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 10/33] fix: do not fold a plain local.tee as the second
 operand of a binary operation

It leaves an earlier operand on the stack instead of pushing one of its own,
so folding it made it consume the wrong one.
---
 crates/parser/src/macros.rs   | 4 +++-
 crates/parser/src/optimize.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/macros.rs b/crates/parser/src/macros.rs
index ff216a5..1dfbabc 100644
--- a/crates/parser/src/macros.rs
+++ b/crates/parser/src/macros.rs
@@ -216,6 +216,7 @@ pub(crate) mod optimize {
         (
             $instrs:ident, $read:expr, $dst:expr,
             source = $source:ident,
+            tee = $tee:ident,
             op = $op:ident,
             const = $const:ident,
             local_local = $local_local:ident,
@@ -229,7 +230,8 @@ pub(crate) mod optimize {
                 && let Some(op) = $op(raw_op)
             {
                 if let Some((rhs_instr, rhs)) = $source(rhs_src) {
-                    if rhs_instr.is_none() || rhs != lhs {
+                    // a plain tee passes an earlier operand on instead of pushing one of its own
+                    if !matches!(rhs_src, Instruction::$tee(_)) && (rhs_instr.is_none() || rhs != lhs) {
                         $instrs.tail_rewritten = true;
                         $instrs.truncate($read - 3);
                         $instrs.extend(lhs_instr);
diff --git a/crates/parser/src/optimize.rs b/crates/parser/src/optimize.rs
index b346234..da9abb9 100644
--- a/crates/parser/src/optimize.rs
+++ b/crates/parser/src/optimize.rs
@@ -276,6 +276,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_32,
+                    tee = LocalTee32,
                     op = scalar_bin_op,
                     const = scalar_const_32,
                     local_local = BinOpLocalLocalSet32,
@@ -319,6 +320,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_64,
+                    tee = LocalTee64,
                     op = scalar_bin_op,
                     const = scalar_const_64,
                     local_local = BinOpLocalLocalSet64,
@@ -352,6 +354,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_128,
+                    tee = LocalTee128,
                     op = bin_op_128,
                     const = const_128,
                     local_local = BinOpLocalLocalSet128,
@@ -380,6 +383,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_32,
+                    tee = LocalTee32,
                     op = scalar_bin_op,
                     const = scalar_const_32,
                     local_local = BinOpLocalLocalTee32,
@@ -432,6 +436,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_64,
+                    tee = LocalTee64,
                     op = scalar_bin_op,
                     const = scalar_const_64,
                     local_local = BinOpLocalLocalTee64,
@@ -454,6 +459,7 @@ fn rewrite(
                 fold_local_binop!(
                     instrs, i, dst,
                     source = resolve_local_source_128,
+                    tee = LocalTee128,
                     op = bin_op_128,
                     const = const_128,
                     local_local = BinOpLocalLocalTee128,
-- 
2.43.0


From d25de13b2206622f4d014f956d1862e5c6993ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 11/33] fix: do not merge local.get and local.tee across a
 label

A branch to the label landed after the local had been copied, with its
operand left on the stack and the local not set.
---
 crates/parser/src/visit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/visit.rs b/crates/parser/src/visit.rs
index 9f5142d..c49c884 100644
--- a/crates/parser/src/visit.rs
+++ b/crates/parser/src/visit.rs
@@ -108,6 +108,8 @@ pub(crate) struct FunctionBuilder<'a> {
     metadata: &'a ModuleMetadata,
     local_types: Vec<OperandSize>,
     local_addr_map: Vec<u16>,
+    /// The last instruction index that a label is bound to.
+    last_label_ip: usize,
 }
 
 impl<'a> FunctionBuilder<'a> {
@@ -121,6 +123,7 @@ impl<'a> FunctionBuilder<'a> {
         Self {
             local_types,
             local_addr_map,
+            last_label_ip: 0,
             metadata,
             instructions: Vec::with_capacity(body_size.min(1024)),
             data: FunctionDataBuilder::default(),
@@ -460,7 +463,9 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
     fn visit_local_tee(&mut self, idx: u32) -> Self::Output {
         let (size, local_idx) = self.local(idx)?;
         self.apply_effect(&[size], &[size])?;
-        let src = match (size, self.instructions.last()) {
+        // a jump to a label in between brings its own operand, so don't merge across it
+        let previous = self.instructions.last().filter(|_| self.instructions.len() != self.last_label_ip);
+        let src = match (size, previous) {
             (OperandSize::S32, Some(Instruction::LocalGet32(src))) => Some(*src),
             (OperandSize::S64, Some(Instruction::LocalGet64(src))) => Some(*src),
             (OperandSize::S128, Some(Instruction::LocalGet128(src))) => Some(*src),
@@ -532,6 +537,7 @@ impl<'a> wasmparser::VisitOperator<'a> for FunctionBuilder<'_> {
             if let Some(parent) = self.control_stack.last_mut() {
                 parent.unreachable = !reachable;
             }
+            self.last_label_ip = self.instructions.len();
             self.patch_end_jumps(ctx, self.instructions.len());
         }
         Ok(())
@@ -997,6 +1003,9 @@ impl FunctionBuilder<'_> {
         let base = self.lane_counts;
         self.push_sizes(&signature.params)?;
         let entry_unreachable = self.is_unreachable();
+        if matches!(kind, BlockKind::Loop) {
+            self.last_label_ip = self.instructions.len();
+        }
         self.control_stack.push(ControlFrame {
             kind,
             has_else: false,
-- 
2.43.0


From 98823fffef43817489207aad5d52520be24a454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 12/33] fix: refuse to import globals, tables and memories of
 another store

Only functions and linked instances were checked; the address of any other
item was used in the wrong store.
---
 crates/tinywasm/src/imports.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index 056d706..fcecb48 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -220,12 +220,14 @@ impl Imports {
 
         for import in &*module.imports {
             let (val, func_handle) = if let Some(defined) = self.take_defined(import) {
-                match defined {
-                    Extern::Global(global) => (ExternVal::Global(global.0.addr), None),
-                    Extern::Table(table) => (ExternVal::Table(table.0.addr), None),
-                    Extern::Memory(memory) => (ExternVal::Memory(memory.0.addr), None),
-                    Extern::Function(func) => (ExternVal::Func(func.addr), Some(func)),
-                }
+                let (item, val, func) = match defined {
+                    Extern::Global(global) => (global.0, ExternVal::Global(global.0.addr), None),
+                    Extern::Table(table) => (table.0, ExternVal::Table(table.0.addr), None),
+                    Extern::Memory(memory) => (memory.0, ExternVal::Memory(memory.0.addr), None),
+                    Extern::Function(func) => (func.item, ExternVal::Func(func.addr), Some(func)),
+                };
+                item.validate_store(store)?;
+                (val, func)
             } else {
                 let name = ExternName::from(import);
                 let Some(instance) = self.modules.get(&name.module) else {
@@ -265,7 +267,6 @@ impl Imports {
                         .get(*ty as usize)
                         .ok_or_else(|| LinkingError::incompatible_import_type(import))?;
                     let actual_ty = if let Some(func) = &func_handle {
-                        func.item.validate_store(store)?;
                         &func.ty
                     } else {
                         store.state.get_func(func_addr).ty()
-- 
2.43.0


From de3cff71fa19c7a0a6c2e09e8d47c8e58e440e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 13/33] fix: read_js_string decodes surrogate pairs

---
 crates/tinywasm/src/reference.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/tinywasm/src/reference.rs b/crates/tinywasm/src/reference.rs
index e46db51..ae95538 100644
--- a/crates/tinywasm/src/reference.rs
+++ b/crates/tinywasm/src/reference.rs
@@ -310,14 +310,10 @@ impl Memory {
     /// Reads a JavaScript-style utf-16 string from memory.
     pub fn read_js_string(&self, store: &Store, offset: usize, len: usize) -> Result<String> {
         let bytes = self.read_vec(store, offset, len)?;
-        let mut string = String::new();
-        for i in 0..(len / 2) {
-            let c = u16::from_le_bytes([bytes[i * 2], bytes[i * 2 + 1]]);
-            string.push(
-                char::from_u32(u32::from(c)).ok_or_else(|| crate::Error::Other("Invalid UTF-16 string".to_string()))?,
-            );
-        }
-        Ok(string)
+        let units = bytes.chunks_exact(2).map(|unit| u16::from_le_bytes([unit[0], unit[1]]));
+        char::decode_utf16(units)
+            .collect::<Result<String, _>>()
+            .map_err(|_| crate::Error::Other("Invalid UTF-16 string".to_string()))
     }
 }
 
-- 
2.43.0


From 8295cd8968ba9efb94ed9c543b40b02c6ee35e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 14/33] fix: a memory without a maximum does not match an
 import with one

---
 crates/tinywasm/src/imports.rs | 10 ++++++----
 crates/types/src/lib.rs        |  6 ++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/imports.rs b/crates/tinywasm/src/imports.rs
index fcecb48..d12bccb 100644
--- a/crates/tinywasm/src/imports.rs
+++ b/crates/tinywasm/src/imports.rs
@@ -195,11 +195,13 @@ impl Imports {
             return Err(LinkingError::incompatible_import_type(import).into());
         }
 
-        if expected.page_count_max() > actual.page_count_max() {
-            return Err(LinkingError::incompatible_import_type(import).into());
+        match (expected.declared_page_count_max(), actual.declared_page_count_max()) {
+            (None, Some(_)) => Err(LinkingError::incompatible_import_type(import).into()),
+            (Some(expected_max), Some(actual_max)) if actual_max < expected_max => {
+                Err(LinkingError::incompatible_import_type(import).into())
+            }
+            _ => Ok(()),
         }
-
-        Ok(())
     }
 
     pub(crate) fn link(&self, store: &mut crate::Store, module: &Module) -> Result<ResolvedImports> {
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 6f8a612..2207c0d 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -572,6 +572,12 @@ impl MemoryType {
         if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
     }
 
+    /// The maximum page count the type declares, if any.
+    #[inline]
+    pub const fn declared_page_count_max(&self) -> Option<u64> {
+        self.page_count_max
+    }
+
     #[inline]
     pub const fn page_size(&self) -> u64 {
         if let Some(page_size) = self.page_size { page_size } else { MEM_PAGE_SIZE }
-- 
2.43.0


From 66b452fcc7e25ea4de2d2646ff5763969435c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 15/33] fix: report memories that are too large instead of
 panicking

memory64 modules may declare more pages than are supported, or so many that
their size in bytes overflows.
---
 crates/tinywasm/src/store/memory/instance.rs | 8 ++++++--
 crates/types/src/lib.rs                      | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/store/memory/instance.rs b/crates/tinywasm/src/store/memory/instance.rs
index be0f3b4..3a86238 100644
--- a/crates/tinywasm/src/store/memory/instance.rs
+++ b/crates/tinywasm/src/store/memory/instance.rs
@@ -57,7 +57,9 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            return Err(Error::UnsupportedFeature("initial memory size exceeds the maximum memory size"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
@@ -80,7 +82,9 @@ impl MemoryInstance {
     }
 
     pub(crate) fn new_lazy(kind: MemoryType, backend: &MemoryBackend) -> Result<Self> {
-        assert!(kind.page_count_initial() <= kind.page_count_max());
+        if kind.page_count_initial() > kind.page_count_max() {
+            return Err(Error::UnsupportedFeature("initial memory size exceeds the maximum memory size"));
+        }
 
         let initial_len = usize::try_from(kind.initial_size())
             .map_err(|_| Error::UnsupportedFeature("memory size exceeds the host address space"))?;
diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 2207c0d..589da0b 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -585,12 +585,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn initial_size(&self) -> u64 {
-        self.page_count_initial * self.page_size()
+        self.page_count_initial.saturating_mul(self.page_size())
     }
 
     #[inline]
     pub const fn max_size(&self) -> u64 {
-        self.page_count_max() * self.page_size()
+        self.page_count_max().saturating_mul(self.page_size())
     }
 
     /// Set a different memory architecture.
-- 
2.43.0


From 9b5cb568119ac6d885cb76cb92a2f03de5914a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 16/33] fix: locals of reference type start out null

Stack slots of locals are zeroed, and zero stood for the function or
extern reference with address 0.
---
 crates/tinywasm/src/interpreter/executor.rs    |  2 +-
 .../src/interpreter/stack/value_stack.rs       |  6 +++---
 crates/tinywasm/src/interpreter/values.rs      | 18 ++++++++++++------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 19bb40a..8bcd58e 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1266,7 +1266,7 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
         let raw = <Value32>::stack_pop(&mut self.store.value_stack);
         let value = match self.store.state.get_global(global_addr).ty.ty {
             WasmType::I32 | WasmType::F32 => TinyWasmValue::Value32(raw),
-            WasmType::RefExtern | WasmType::RefFunc => TinyWasmValue::ValueRef(ValueRef::from_raw(raw)),
+            WasmType::RefExtern | WasmType::RefFunc => TinyWasmValue::ValueRef(ValueRef::from_slot(raw)),
             WasmType::I64 | WasmType::F64 | WasmType::V128 => unreachable!("invalid global.set.32 target type"),
         };
         self.store.state.set_global_val(global_addr, value);
diff --git a/crates/tinywasm/src/interpreter/stack/value_stack.rs b/crates/tinywasm/src/interpreter/stack/value_stack.rs
index 2049f8d..99c6fd6 100644
--- a/crates/tinywasm/src/interpreter/stack/value_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/value_stack.rs
@@ -241,7 +241,7 @@ impl ValueStack {
             TinyWasmValue::Value32(v) => self.stack_32.push(v)?,
             TinyWasmValue::Value64(v) => self.stack_64.push(v)?,
             TinyWasmValue::Value128(v) => self.stack_128.push(v)?,
-            TinyWasmValue::ValueRef(v) => self.stack_32.push(v.raw())?,
+            TinyWasmValue::ValueRef(v) => self.stack_32.push(v.to_slot())?,
         }
         Ok(())
     }
@@ -265,8 +265,8 @@ impl ValueStack {
                 WasmValue::I64(v) => self.stack_64.push(*v as u64)?,
                 WasmValue::F32(v) => self.stack_32.push(v.to_bits())?,
                 WasmValue::F64(v) => self.stack_64.push(v.to_bits())?,
-                WasmValue::RefExtern(v) => self.stack_32.push(v.raw())?,
-                WasmValue::RefFunc(v) => self.stack_32.push(v.raw())?,
+                WasmValue::RefExtern(v) => self.stack_32.push(ValueRef::from_addr(v.addr()).to_slot())?,
+                WasmValue::RefFunc(v) => self.stack_32.push(ValueRef::from_addr(v.addr()).to_slot())?,
                 WasmValue::V128(v) => self.stack_128.push((*v).into())?,
             }
         }
diff --git a/crates/tinywasm/src/interpreter/values.rs b/crates/tinywasm/src/interpreter/values.rs
index 11bc6c6..6028f8e 100644
--- a/crates/tinywasm/src/interpreter/values.rs
+++ b/crates/tinywasm/src/interpreter/values.rs
@@ -17,11 +17,6 @@ impl Default for ValueRef {
 impl ValueRef {
     pub(crate) const NULL: Self = Self(u32::MAX);
 
-    #[inline]
-    pub(crate) const fn from_raw(raw: u32) -> Self {
-        Self(raw)
-    }
-
     #[inline]
     pub(crate) const fn from_addr(addr: Option<u32>) -> Self {
         match addr {
@@ -44,6 +39,17 @@ impl ValueRef {
     pub(crate) const fn raw(self) -> u32 {
         self.0
     }
+
+    /// The value as it is kept in a stack slot. Locals start out as zeroed slots, so null has to be zero here.
+    #[inline]
+    pub(crate) const fn to_slot(self) -> Value32 {
+        !self.0
+    }
+
+    #[inline]
+    pub(crate) const fn from_slot(slot: Value32) -> Self {
+        Self(!slot)
+    }
 }
 
 #[allow(private_interfaces)]
@@ -248,6 +254,6 @@ impl_internalvalue! {
     Value64,  stack_64,  s64,  i64,      |v| v as u64,        |v| v as u64,        |v| v as i64
     Value32,  stack_32,  s32,  f32,      |v| f32::to_bits(v), |v| f32::to_bits(v), |v| f32::from_bits(v)
     Value64,  stack_64,  s64,  f64,      |v| f64::to_bits(v), |v| f64::to_bits(v), |v| f64::from_bits(v)
-    ValueRef, stack_32,  s32,  ValueRef, |v| v,               |v| v.raw(),         |v| ValueRef(v)
+    ValueRef, stack_32,  s32,  ValueRef, |v| v,               |v| v.to_slot(),     |v| ValueRef::from_slot(v)
     Value128, stack_128, s128, Value128, |v| v,               |v| v,               |v| v
 }
-- 
2.43.0


From e613d8c6e58bff6c0a5c06ba2a034225e19dfced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 17/33] fix: memory.init counts as a use of the memory it
 writes

The memory index is its second operand; with the data index taken for it,
a memory only reached by memory.init could be left unallocated.
---
 crates/types/src/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/instructions.rs b/crates/types/src/instructions.rs
index a22279e..cf8a217 100644
--- a/crates/types/src/instructions.rs
+++ b/crates/types/src/instructions.rs
@@ -305,7 +305,7 @@ pub enum Instruction {
     TableFill(TableAddr),
 
     // > Bulk Memory Instructions
-    MemoryInit(MemAddr, DataAddr),
+    MemoryInit(DataAddr, MemAddr),
     MemoryCopy { dst_mem: MemAddr, src_mem: MemAddr },
     MemoryFill(MemAddr),
     MemoryFillImm(MemAddr, u8, i32),
@@ -468,7 +468,7 @@ impl Instruction {
             | Self::V128Store64Lane(arg, ..) => Some(arg.mem_addr()),
             Self::MemorySize(mem)
             | Self::MemoryGrow(mem)
-            | Self::MemoryInit(mem, ..)
+            | Self::MemoryInit(_, mem)
             | Self::MemoryFill(mem)
             | Self::MemoryFillImm(mem, ..) => Some(*mem),
             Self::MemoryCopy { dst_mem, src_mem } => Some(if *dst_mem >= *src_mem { *dst_mem } else { *src_mem }),
-- 
2.43.0


From 59f1e62d43346b4f93d8ef1df2a003e14cf57167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 18/33] fix: do not allocate stream buffers from untrusted
 section sizes

---
 crates/parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/lib.rs b/crates/parser/src/lib.rs
index 7936675..dd426ad 100644
--- a/crates/parser/src/lib.rs
+++ b/crates/parser/src/lib.rs
@@ -177,7 +177,8 @@ impl Parser {
     #[cfg(feature = "std")]
     fn read_more(stream: &mut impl std::io::Read, buffer: &mut alloc::vec::Vec<u8>, hint: usize) -> Result<usize> {
         let len = buffer.len();
-        buffer.resize(len + hint, 0);
+        // The hint is taken from the input, so do not allocate far more than what has been read so far.
+        buffer.resize(len + hint.min(len.max(64 * 1024)), 0);
         let read_bytes = stream
             .read(&mut buffer[len..])
             .map_err(|e| ParseError::Other(alloc::format!("Error reading from stream: {e}")))?;
-- 
2.43.0


From 1b6f81f1188acbaad6454f673e158cdc6f891f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 19/33] fix: do not reserve memory for an unchecked number of
 function bodies

---
 crates/parser/src/module.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/module.rs b/crates/parser/src/module.rs
index 8a7e997..b57cfe0 100644
--- a/crates/parser/src/module.rs
+++ b/crates/parser/src/module.rs
@@ -267,7 +267,9 @@ impl<'a> ModuleReader<'a> {
         }
 
         self.has_code_section = true;
-        self.code.reserve(count as usize);
+        // The count is not validated yet, but there can be no more bodies than declared functions.
+        let expected_count = (count as usize).min(self.code_type_addrs.len());
+        self.code.reserve(expected_count);
         if let Some(validator) = validator {
             validator.code_section_start(&range)?;
         }
@@ -277,7 +279,7 @@ impl<'a> ModuleReader<'a> {
             let defer = crate::parallel::should_use_parallel(options, count as usize, size as usize);
             if defer {
                 debug!("Queuing {count} functions from {size} byte code section");
-                self.pending_functions = Some(Vec::with_capacity(count as usize));
+                self.pending_functions = Some(Vec::with_capacity(expected_count));
             }
             Ok(defer)
         }
-- 
2.43.0


From c5a3e6ada4a62bccee9d833ea0530703885a5597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 20/33] fix: a failed execution cannot be resumed

---
 crates/tinywasm/src/func.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 9777a47..935f4de 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -439,7 +439,12 @@ impl<'store> FuncExecution<'store> {
         let result = run(self.store, callframe);
         self.store.exit_execution();
 
-        match result? {
+        let result = result.inspect_err(|_| {
+            // A failed call is over, there is nothing left to resume.
+            self.state = FuncExecutionState::Completed { result: None };
+        })?;
+
+        match result {
             crate::interpreter::ExecState::Completed => {
                 let result_ty = self.store.state.get_func(root_func_addr).ty().clone();
                 self.state = FuncExecutionState::Completed { result: None };
-- 
2.43.0


From 0cc0131824262189b51d2ae474d41202dd1df8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 21/33] fix: host functions called directly start with empty
 stacks

---
 crates/tinywasm/src/func.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 935f4de..31710da 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -13,6 +13,10 @@ impl Function {
     pub fn call(&self, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
         #[inline]
         fn call_inner(func: &Function, store: &mut Store, params: &[WasmValue]) -> Result<Vec<WasmValue>> {
+            // Leftovers of a failed or abandoned call must not take up stack space.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             let wasm_func = match func_instance {
                 FunctionInstance::Host(host_func) => {
@@ -21,9 +25,7 @@ impl Function {
                 FunctionInstance::Wasm(wasm_func) => wasm_func,
             };
 
-            // Reset stack, push args, allocate locals, create entry frame.
-            store.call_stack.clear();
-            store.value_stack.clear();
+            // Push args, allocate locals, create entry frame.
             store.value_stack.extend_from_wasmvalues(params)?;
             let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
             let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
@@ -59,6 +61,10 @@ impl Function {
             store: &mut Store,
             params: &[WasmValue],
         ) -> Result<FuncExecutionState> {
+            // Leftovers of a failed or abandoned call must not take up stack space.
+            store.call_stack.clear();
+            store.value_stack.clear();
+
             let func_instance = store.state.get_func(func.addr);
             match func_instance {
                 FunctionInstance::Host(host_func) => host_func
@@ -66,8 +72,6 @@ impl Function {
                     .call(FuncContext { store, module_addr: func.module_addr }, params)
                     .map(|result| FuncExecutionState::Completed { result: Some(result) }),
                 FunctionInstance::Wasm(wasm_func) => {
-                    store.call_stack.clear();
-                    store.value_stack.clear();
                     store.value_stack.extend_from_wasmvalues(params)?;
                     let locals_base = store.value_stack.enter_locals(&wasm_func.func.params, &wasm_func.func.locals)?;
                     let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-- 
2.43.0


From 4ffaa4d8c6f7993dab00b15463e282e527ce30ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 22/33] fix: fuel left over by a completed call is not seen by
 later calls

---
 crates/tinywasm/src/store/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinywasm/src/store/mod.rs b/crates/tinywasm/src/store/mod.rs
index ab95494..4a2f027 100644
--- a/crates/tinywasm/src/store/mod.rs
+++ b/crates/tinywasm/src/store/mod.rs
@@ -104,6 +104,7 @@ impl Store {
 
     pub(crate) fn exit_execution(&mut self) {
         self.execution_active = false;
+        self.execution_fuel = 0;
     }
 }
 
-- 
2.43.0


From 93eb7019fa1579c7ba64629796aff245ffc61c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 23/33] fix: nested calls of host functions count towards the
 call stack limit

---
 crates/tinywasm/src/func.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/tinywasm/src/func.rs b/crates/tinywasm/src/func.rs
index 31710da..d8c06c4 100644
--- a/crates/tinywasm/src/func.rs
+++ b/crates/tinywasm/src/func.rs
@@ -353,10 +353,13 @@ impl FuncContext<'_> {
                     .inspect_err(|_| self.store.value_stack.truncate_to_base(value_stack_base))?;
 
                 let callframe = CallFrame::new(func.addr, locals_base, wasm_func.func.locals);
-                InterpreterRuntime::exec(self.store, callframe, call_stack_base).inspect_err(|_| {
-                    self.store.call_stack.truncate_to(call_stack_base);
-                    self.store.value_stack.truncate_to_base(value_stack_base);
-                })?;
+                // The nested call takes up a frame of its own: re-entrant recursion uses the native stack too.
+                let result = self.store.call_stack.push(callframe).and_then(|()| {
+                    let nested_base = self.store.call_stack.len();
+                    InterpreterRuntime::exec(self.store, callframe, nested_base)
+                });
+                self.store.call_stack.truncate_to(call_stack_base);
+                result.inspect_err(|_| self.store.value_stack.truncate_to_base(value_stack_base))?;
 
                 collect_call_results(&mut self.store.value_stack, &func.ty)
             }
-- 
2.43.0


From 563695835e563f3930c6572be68f45775494dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 24/33] fix: a dynamic call stack does not hold more frames
 than its maximum size

try_reserve amortizes, so the capacity (which later pushes are checked
against) could exceed max_size.
---
 crates/tinywasm/src/interpreter/stack/call_stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/stack/call_stack.rs b/crates/tinywasm/src/interpreter/stack/call_stack.rs
index 62f1f8e..cc3782e 100644
--- a/crates/tinywasm/src/interpreter/stack/call_stack.rs
+++ b/crates/tinywasm/src/interpreter/stack/call_stack.rs
@@ -56,7 +56,7 @@ impl CallStack {
         }
 
         let target_capacity = required_len.max(self.stack.capacity().max(1).saturating_mul(2)).min(self.max_size);
-        let Ok(()) = self.stack.try_reserve(target_capacity.saturating_sub(self.stack.len())) else {
+        let Ok(()) = self.stack.try_reserve_exact(target_capacity.saturating_sub(self.stack.len())) else {
             cold_path();
             return Err(Trap::CallStackOverflow);
         };
-- 
2.43.0


From 3c2db6f9c9cb8493ca167acee970a53f291aa73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 25/33] fix: limit 32-bit memories of one-byte pages to 2^32 -
 1 pages

---
 crates/types/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/types/src/lib.rs b/crates/types/src/lib.rs
index 589da0b..ebbf4ba 100644
--- a/crates/types/src/lib.rs
+++ b/crates/types/src/lib.rs
@@ -569,7 +569,12 @@ impl MemoryType {
 
     #[inline]
     pub const fn page_count_max(&self) -> u64 {
-        if let Some(page_count_max) = self.page_count_max { page_count_max } else { max_page_count(self.page_size()) }
+        if let Some(page_count_max) = self.page_count_max {
+            return page_count_max;
+        }
+        let max = max_page_count(self.page_size());
+        // a size of 2^32 pages can't be expressed in a 32-bit memory
+        if matches!(self.arch, MemoryArch::I32) && max > u32::MAX as u64 { u32::MAX as u64 } else { max }
     }
 
     /// The maximum page count the type declares, if any.
-- 
2.43.0


From 8c2a35ff94a7cf4008b5a05f195bab4f295cff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 26/33] fix: report memory chunk sizes that are not powers of
 two instead of panicking

---
 crates/cli/src/engine_flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cli/src/engine_flags.rs b/crates/cli/src/engine_flags.rs
index c8df1fe..77e7d77 100644
--- a/crates/cli/src/engine_flags.rs
+++ b/crates/cli/src/engine_flags.rs
@@ -90,8 +90,8 @@ impl EngineFlags {
             config = config.with_memory_backend(match memory_backend {
                 MemoryBackendArg::Vec => tinywasm::MemoryBackend::vec(),
                 MemoryBackendArg::Paged => {
-                    if self.memory_page_chunk_size == 0 {
-                        bail!("--memory-page-chunk-size must be greater than zero");
+                    if !self.memory_page_chunk_size.is_power_of_two() {
+                        bail!("--memory-page-chunk-size must be a power of two");
                     }
                     tinywasm::MemoryBackend::paged(self.memory_page_chunk_size)
                 }
-- 
2.43.0


From f58ce501e8802b38d619d3952ad40786213dffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 27/33] fix: register the named module in wast scripts, not the
 last one

---
 crates/cli/src/wast_runner.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index 99f1efe..61847e7 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -36,7 +36,6 @@ impl ModuleRegistry {
     fn register(&mut self, name: String, module: ModuleInstance) {
         debug!("registering module: {name}");
         self.modules.insert(name.clone(), module.clone());
-        self.last_module = Some(module.clone());
         self.named_modules.insert(name, module);
     }
 
@@ -59,10 +58,6 @@ impl ModuleRegistry {
             None => self.last_module.clone(),
         }
     }
-
-    fn last(&self) -> Option<ModuleInstance> {
-        self.last_module.clone()
-    }
 }
 
 #[derive(Default)]
@@ -223,8 +218,8 @@ impl WastRunner {
             };
 
             match directive {
-                Register { span, name, .. } => {
-                    let Some(last) = module_registry.last() else {
+                Register { span, name, module } => {
+                    let Some(registered) = module_registry.get(module) else {
                         test_group.add_result(
                             &format!("Register({i})"),
                             span.linecol_in(wast_raw),
@@ -232,7 +227,7 @@ impl WastRunner {
                         );
                         continue;
                     };
-                    module_registry.register(name.to_string(), last);
+                    module_registry.register(name.to_string(), registered);
                     test_group.add_result(&format!("Register({i})"), span.linecol_in(wast_raw), Ok(()));
                 }
                 Wat(module) => {
-- 
2.43.0


From d67d204673ffd810bef58f7692e25426855676c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 28/33] fix: ceil, floor and trunc of a signaling NaN return an
 arithmetic NaN on every target

---
 crates/tinywasm/src/interpreter/executor.rs    | 12 ++++++------
 crates/tinywasm/src/interpreter/num_helpers.rs | 16 +++++++++++++++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 8bcd58e..964d995 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -515,12 +515,12 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             F64Abs => stack_op!(unary f64, |v| v.abs()),
             F32Neg => stack_op!(unary f32, |v| -v),
             F64Neg => stack_op!(unary f64, |v| -v),
-            F32Ceil => stack_op!(unary f32, |v| v.ceil()),
-            F64Ceil => stack_op!(unary f64, |v| v.ceil()),
-            F32Floor => stack_op!(unary f32, |v| v.floor()),
-            F64Floor => stack_op!(unary f64, |v| v.floor()),
-            F32Trunc => stack_op!(unary f32, |v| v.trunc()),
-            F64Trunc => stack_op!(unary f64, |v| v.trunc()),
+            F32Ceil => stack_op!(unary f32, |v| v.ceil().tw_quiet()),
+            F64Ceil => stack_op!(unary f64, |v| v.ceil().tw_quiet()),
+            F32Floor => stack_op!(unary f32, |v| v.floor().tw_quiet()),
+            F64Floor => stack_op!(unary f64, |v| v.floor().tw_quiet()),
+            F32Trunc => stack_op!(unary f32, |v| v.trunc().tw_quiet()),
+            F64Trunc => stack_op!(unary f64, |v| v.trunc().tw_quiet()),
             F32Nearest => stack_op!(unary f32, |v| v.tw_nearest()),
             F64Nearest => stack_op!(unary f64, |v| v.tw_nearest()),
             F32Sqrt => stack_op!(unary f32, |v| v.sqrt()),
diff --git a/crates/tinywasm/src/interpreter/num_helpers.rs b/crates/tinywasm/src/interpreter/num_helpers.rs
index 7b3807e..7633b0a 100644
--- a/crates/tinywasm/src/interpreter/num_helpers.rs
+++ b/crates/tinywasm/src/interpreter/num_helpers.rs
@@ -49,6 +49,7 @@ pub(crate) trait TinywasmFloatExt {
     fn tw_minimum(self, other: Self) -> Self;
     fn tw_maximum(self, other: Self) -> Self;
     fn tw_nearest(self) -> Self;
+    fn tw_quiet(self) -> Self;
 }
 
 use crate::{Result, Trap};
@@ -64,7 +65,7 @@ macro_rules! impl_wasm_float_ops {
             fn tw_nearest(self) -> Self {
                 match self {
                     #[cfg(not(feature = "canonicalize-nans"))]
-                    x if x.is_nan() => x, // preserve NaN
+                    x if x.is_nan() => x.tw_quiet(), // preserve NaN payload
                     #[cfg(feature = "canonicalize-nans")]
                     x if x.is_nan() => Self::NAN, // Do not preserve NaN
                     x if x.is_infinite() || x == 0.0 => x, // preserve infinities and zeros
@@ -112,6 +113,19 @@ macro_rules! impl_wasm_float_ops {
                     None => Self::NAN, // Do not preserve NaN
                 }
             }
+
+            // Depending on the target, rounding functions return a signaling NaN operand unchanged,
+            // but a NaN result has to be an arithmetic NaN.
+            #[inline]
+            fn tw_quiet(self) -> Self {
+                if !self.is_nan() {
+                    return self;
+                }
+                #[cfg(not(feature = "canonicalize-nans"))]
+                return Self::from_bits(self.to_bits() | Self::NAN.to_bits());
+                #[cfg(feature = "canonicalize-nans")]
+                return Self::NAN; // Do not preserve NaN
+            }
         }
     )*)
 }
-- 
2.43.0


From 757c6e6352429412e01183ee34c0b9c510a99f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 29/33] fix: compare wast results by their declared lane shape
 and NaN pattern

---
 crates/cli/src/wast_runner.rs | 155 ++++++++++++++++------------------
 1 file changed, 71 insertions(+), 84 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index 61847e7..3acddcc 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -9,7 +9,10 @@ use eyre::{Context, Result, bail, eyre};
 use log::{debug, error};
 use tinywasm::types::{ExternRef, FuncRef, MemoryType, TableType, WasmType, WasmValue};
 use tinywasm::{ExecProgress, Global, HostFunction, Imports, Memory, Module, ModuleInstance, Store, Table};
-use wast::{QuoteWat, core::AbstractHeapType};
+use wast::{
+    QuoteWat,
+    core::{AbstractHeapType, NanPattern},
+};
 
 const TEST_TIME_SLICE: Duration = Duration::from_millis(20);
 const TEST_MAX_SUSPENSIONS: u32 = 1000;
@@ -462,7 +465,7 @@ impl WastRunner {
                             let expected = expected_alternatives
                                 .iter()
                                 .filter_map(|alts| alts.first())
-                                .find(|exp| module_global.eq_loose(exp));
+                                .find(|exp| exp.matches(&module_global));
                             if expected.is_none() {
                                 test_group.add_result(
                                     &format!("AssertReturn(unsupported-{i})"),
@@ -511,7 +514,7 @@ impl WastRunner {
                         }
                         if expected_alternatives.iter().any(|expected| {
                             expected.len() == outcomes.len()
-                                && outcomes.iter().zip(expected.iter()).all(|(outcome, exp)| outcome.eq_loose(exp))
+                                && outcomes.iter().zip(expected.iter()).all(|(outcome, exp)| exp.matches(outcome))
                         }) {
                             Ok(())
                         } else {
@@ -730,10 +733,10 @@ fn convert_wastargs(args: Vec<wast::WastArg>) -> Result<Vec<WasmValue>> {
     args.into_iter().map(wastarg2tinywasmvalue).collect()
 }
 
-fn convert_wastret<'a>(args: impl Iterator<Item = wast::WastRet<'a>>) -> Result<Vec<Vec<WasmValue>>> {
+fn convert_wastret<'a>(args: impl Iterator<Item = wast::WastRet<'a>>) -> Result<Vec<Vec<Expected>>> {
     let mut alternatives = vec![Vec::new()];
     for arg in args {
-        let choices = wastret2tinywasmvalues(arg)?;
+        let choices = wastret2expected(arg)?;
         let mut next = Vec::with_capacity(alternatives.len() * choices.len());
         for prefix in alternatives {
             for choice in &choices {
@@ -776,42 +779,83 @@ fn wastarg2tinywasmvalue(arg: wast::WastArg) -> Result<WasmValue> {
     })
 }
 
-fn wast_v128_to_bytes(i: wast::core::V128Pattern) -> [u8; 16] {
-    let res: Vec<u8> = match i {
-        wast::core::V128Pattern::F32x4(f) => {
-            f.iter().flat_map(|v| nanpattern2tinywasmvalue(*v).unwrap().as_f32().unwrap().to_le_bytes()).collect()
-        }
-        wast::core::V128Pattern::F64x2(f) => {
-            f.iter().flat_map(|v| nanpattern2tinywasmvalue(*v).unwrap().as_f64().unwrap().to_le_bytes()).collect()
+/// A single expected result of an `assert_return` directive.
+#[derive(Clone, Copy)]
+enum Expected {
+    Value(WasmValue),
+    F32(NanPattern<wast::token::F32>),
+    F64(NanPattern<wast::token::F64>),
+    F32x4([NanPattern<wast::token::F32>; 4]),
+    F64x2([NanPattern<wast::token::F64>; 2]),
+}
+
+impl Expected {
+    fn matches(&self, outcome: &WasmValue) -> bool {
+        match (self, outcome) {
+            (Self::Value(expected), outcome) => expected == outcome,
+            (Self::F32(expected), WasmValue::F32(v)) => f32_matches(*expected, v.to_bits()),
+            (Self::F64(expected), WasmValue::F64(v)) => f64_matches(*expected, v.to_bits()),
+            (Self::F32x4(expected), WasmValue::V128(v)) => (v.chunks_exact(4).zip(expected))
+                .all(|(lane, exp)| f32_matches(*exp, u32::from_le_bytes(lane.try_into().unwrap()))),
+            (Self::F64x2(expected), WasmValue::V128(v)) => (v.chunks_exact(8).zip(expected))
+                .all(|(lane, exp)| f64_matches(*exp, u64::from_le_bytes(lane.try_into().unwrap()))),
+            _ => false,
         }
-        wast::core::V128Pattern::I16x8(f) => f.iter().flat_map(|v| v.to_le_bytes()).collect(),
-        wast::core::V128Pattern::I32x4(f) => f.iter().flat_map(|v| v.to_le_bytes()).collect(),
-        wast::core::V128Pattern::I64x2(f) => f.iter().flat_map(|v| v.to_le_bytes()).collect(),
-        wast::core::V128Pattern::I8x16(f) => f.iter().flat_map(|v| v.to_le_bytes()).collect(),
-    };
-    res.try_into().unwrap()
+    }
+}
+
+fn f32_matches(expected: NanPattern<wast::token::F32>, bits: u32) -> bool {
+    const CANONICAL: u32 = 0x7fc0_0000;
+    match expected {
+        NanPattern::CanonicalNan => bits & 0x7fff_ffff == CANONICAL,
+        NanPattern::ArithmeticNan => bits & CANONICAL == CANONICAL,
+        NanPattern::Value(v) => bits == v.bits,
+    }
+}
+
+fn f64_matches(expected: NanPattern<wast::token::F64>, bits: u64) -> bool {
+    const CANONICAL: u64 = 0x7ff8_0000_0000_0000;
+    match expected {
+        NanPattern::CanonicalNan => bits & 0x7fff_ffff_ffff_ffff == CANONICAL,
+        NanPattern::ArithmeticNan => bits & CANONICAL == CANONICAL,
+        NanPattern::Value(v) => bits == v.bits,
+    }
+}
+
+fn wastv128_to_expected(i: wast::core::V128Pattern) -> Expected {
+    fn int_lanes(bytes: impl Iterator<Item = u8>) -> Expected {
+        Expected::Value(WasmValue::V128(bytes.collect::<Vec<u8>>().try_into().unwrap()))
+    }
+    match i {
+        wast::core::V128Pattern::F32x4(f) => Expected::F32x4(f),
+        wast::core::V128Pattern::F64x2(f) => Expected::F64x2(f),
+        wast::core::V128Pattern::I16x8(f) => int_lanes(f.iter().flat_map(|v| v.to_le_bytes())),
+        wast::core::V128Pattern::I32x4(f) => int_lanes(f.iter().flat_map(|v| v.to_le_bytes())),
+        wast::core::V128Pattern::I64x2(f) => int_lanes(f.iter().flat_map(|v| v.to_le_bytes())),
+        wast::core::V128Pattern::I8x16(f) => int_lanes(f.iter().flat_map(|v| v.to_le_bytes())),
+    }
 }
 
-fn wastret2tinywasmvalues(ret: wast::WastRet) -> Result<Vec<WasmValue>> {
+fn wastret2expected(ret: wast::WastRet) -> Result<Vec<Expected>> {
     let wast::WastRet::Core(ret) = ret else {
         bail!("unsupported arg type");
     };
     match ret {
         wast::core::WastRetCore::Either(options) => {
-            options.into_iter().map(wastretcore2tinywasmvalue).collect::<Result<Vec<_>>>()
+            options.into_iter().map(wastretcore2expected).collect::<Result<Vec<_>>>()
         }
-        ret => Ok(vec![wastretcore2tinywasmvalue(ret)?]),
+        ret => Ok(vec![wastretcore2expected(ret)?]),
     }
 }
 
-fn wastretcore2tinywasmvalue(ret: wast::core::WastRetCore) -> Result<WasmValue> {
+fn wastretcore2expected(ret: wast::core::WastRetCore) -> Result<Expected> {
     use wast::core::WastRetCore::{F32, F64, I32, I64, RefExtern, RefFunc, RefNull, V128};
-    Ok(match ret {
-        F32(f) => nanpattern2tinywasmvalue(f)?,
-        F64(f) => nanpattern2tinywasmvalue(f)?,
+    Ok(Expected::Value(match ret {
+        F32(f) => return Ok(Expected::F32(f)),
+        F64(f) => return Ok(Expected::F64(f)),
+        V128(i) => return Ok(wastv128_to_expected(i)),
         I32(i) => WasmValue::I32(i),
         I64(i) => WasmValue::I64(i),
-        V128(i) => WasmValue::V128(wast_v128_to_bytes(i)),
         RefNull(t) => match t {
             Some(wast::core::HeapType::Abstract { shared: false, ty: AbstractHeapType::Func }) => {
                 WasmValue::RefFunc(FuncRef::null())
@@ -833,64 +877,7 @@ fn wastretcore2tinywasmvalue(ret: wast::core::WastRetCore) -> Result<WasmValue>
         a => {
             bail!("unsupported arg type {:?}", a);
         }
-    })
-}
-
-enum Bits {
-    U32(u32),
-    U64(u64),
-}
-
-trait FloatToken {
-    fn bits(&self) -> Bits;
-    fn canonical_nan() -> WasmValue;
-    fn arithmetic_nan() -> WasmValue;
-    fn value(&self) -> WasmValue {
-        match self.bits() {
-            Bits::U32(v) => WasmValue::F32(f32::from_bits(v)),
-            Bits::U64(v) => WasmValue::F64(f64::from_bits(v)),
-        }
-    }
-}
-
-impl FloatToken for wast::token::F32 {
-    fn bits(&self) -> Bits {
-        Bits::U32(self.bits)
-    }
-
-    fn canonical_nan() -> WasmValue {
-        WasmValue::F32(f32::NAN)
-    }
-
-    fn arithmetic_nan() -> WasmValue {
-        WasmValue::F32(f32::NAN)
-    }
-}
-
-impl FloatToken for wast::token::F64 {
-    fn bits(&self) -> Bits {
-        Bits::U64(self.bits)
-    }
-
-    fn canonical_nan() -> WasmValue {
-        WasmValue::F64(f64::NAN)
-    }
-
-    fn arithmetic_nan() -> WasmValue {
-        WasmValue::F64(f64::NAN)
-    }
-}
-
-fn nanpattern2tinywasmvalue<T>(arg: wast::core::NanPattern<T>) -> Result<WasmValue>
-where
-    T: FloatToken,
-{
-    use wast::core::NanPattern::{ArithmeticNan, CanonicalNan, Value};
-    Ok(match arg {
-        CanonicalNan => T::canonical_nan(),
-        ArithmeticNan => T::arithmetic_nan(),
-        Value(v) => v.value(),
-    })
+    }))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 192a874c53f9efb0ea78ac18ef6a3c240fa04e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 30/33] fix: keep names of modules and registered names apart
 in wast scripts

---
 crates/cli/src/wast_runner.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/crates/cli/src/wast_runner.rs b/crates/cli/src/wast_runner.rs
index 3acddcc..5504863 100644
--- a/crates/cli/src/wast_runner.rs
+++ b/crates/cli/src/wast_runner.rs
@@ -38,26 +38,19 @@ impl ModuleRegistry {
 
     fn register(&mut self, name: String, module: ModuleInstance) {
         debug!("registering module: {name}");
-        self.modules.insert(name.clone(), module.clone());
-        self.named_modules.insert(name, module);
+        self.modules.insert(name, module);
     }
 
     fn get_idx(&self, module_id: Option<wast::token::Id<'_>>) -> Option<u32> {
         match module_id {
-            Some(module) => self
-                .modules
-                .get(module.name())
-                .or_else(|| self.named_modules.get(module.name()))
-                .map(ModuleInstance::id),
+            Some(module) => self.named_modules.get(module.name()).map(ModuleInstance::id),
             None => self.last_module.as_ref().map(ModuleInstance::id),
         }
     }
 
     fn get(&self, module_id: Option<wast::token::Id<'_>>) -> Option<ModuleInstance> {
         match module_id {
-            Some(module_id) => {
-                self.modules.get(module_id.name()).or_else(|| self.named_modules.get(module_id.name())).cloned()
-            }
+            Some(module_id) => self.named_modules.get(module_id.name()).cloned(),
             None => self.last_module.clone(),
         }
     }
-- 
2.43.0


From 8ad737dad6bef4bc081726b1e79b9ff3484b9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 31/33] fix: vector rounding of a signaling NaN returns an
 arithmetic NaN without canonicalize-nans

---
 crates/tinywasm/src/interpreter/simd/utils.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/tinywasm/src/interpreter/simd/utils.rs b/crates/tinywasm/src/interpreter/simd/utils.rs
index ebba815..330cfcb 100644
--- a/crates/tinywasm/src/interpreter/simd/utils.rs
+++ b/crates/tinywasm/src/interpreter/simd/utils.rs
@@ -35,8 +35,13 @@ pub(super) const fn canonicalize_simd_f32_nan(x: f32) -> f32 {
     } else {
         x
     }
+    // some operations return a signaling NaN operand unchanged, but a NaN result has to be an arithmetic NaN
     #[cfg(not(feature = "canonicalize-nans"))]
-    x
+    if x.is_nan() {
+        f32::from_bits(x.to_bits() | f32::NAN.to_bits())
+    } else {
+        x
+    }
 }
 
 pub(super) const fn canonicalize_simd_f64_nan(x: f64) -> f64 {
@@ -46,8 +51,13 @@ pub(super) const fn canonicalize_simd_f64_nan(x: f64) -> f64 {
     } else {
         x
     }
+    // some operations return a signaling NaN operand unchanged, but a NaN result has to be an arithmetic NaN
     #[cfg(not(feature = "canonicalize-nans"))]
-    x
+    if x.is_nan() {
+        f64::from_bits(x.to_bits() | f64::NAN.to_bits())
+    } else {
+        x
+    }
 }
 
 pub(super) const fn saturate_i16_to_i8(x: i16) -> i8 {
-- 
2.43.0


From 8170f63bd945f132b2e2607ae804a4df12311c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 32/33] fix: table operands beyond the range of usize are out
 of bounds of every table

---
 crates/tinywasm/src/interpreter/executor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tinywasm/src/interpreter/executor.rs b/crates/tinywasm/src/interpreter/executor.rs
index 964d995..444dbaf 100644
--- a/crates/tinywasm/src/interpreter/executor.rs
+++ b/crates/tinywasm/src/interpreter/executor.rs
@@ -1564,7 +1564,8 @@ impl<'store, const BUDGETED: bool> Executor<'store, BUDGETED> {
             MemoryArch::I32 => <i32>::stack_pop(&mut self.store.value_stack) as u32 as u64,
             MemoryArch::I64 => <i64>::stack_pop(&mut self.store.value_stack) as u64,
         };
-        usize::try_from(value).map_err(|_| Trap::TableOutOfBounds { offset: usize::MAX, len: 1, max: usize::MAX })
+        // an operand beyond the range of `usize` is out of bounds of every table
+        Ok(usize::try_from(value).unwrap_or(usize::MAX))
     }
 }
 
-- 
2.43.0


From a82cbfb988d13f7229e0046add9e1ce8748605bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:46 +0000
Subject: [PATCH 33/33] fix: retry reads a stream reports as interrupted

---
 crates/parser/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/lib.rs b/crates/parser/src/lib.rs
index dd426ad..ee82b1d 100644
--- a/crates/parser/src/lib.rs
+++ b/crates/parser/src/lib.rs
@@ -179,9 +179,13 @@ impl Parser {
         let len = buffer.len();
         // The hint is taken from the input, so do not allocate far more than what has been read so far.
         buffer.resize(len + hint.min(len.max(64 * 1024)), 0);
-        let read_bytes = stream
-            .read(&mut buffer[len..])
-            .map_err(|e| ParseError::Other(alloc::format!("Error reading from stream: {e}")))?;
+        let read_bytes = loop {
+            match stream.read(&mut buffer[len..]) {
+                Ok(read_bytes) => break read_bytes,
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(ParseError::Other(alloc::format!("Error reading from stream: {e}"))),
+            }
+        };
         buffer.truncate(len + read_bytes);
         Ok(read_bytes)
     }
-- 
2.43.0

