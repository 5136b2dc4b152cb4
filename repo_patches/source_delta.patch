From 9465877dc6dfaafdd649115e6ebcf661bc4e1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 01/20] fix: in-memory backend forgot nodes whose key was
 already known as a leaf

---
 src/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 5e20b53..8c16163 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -258,7 +258,7 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		key: C::Value,
 		value: (C::Value, C::Value)
 	) -> Result<(), Self::Error> {
-		if self.0.contains_key(&key) {
+		if self.0.get(&key).map(|v| v.0.is_some()).unwrap_or(false) {
 			return Ok(())
 		}
 
@@ -269,7 +269,9 @@ impl<C: Construct> WriteBackend for InMemoryBackend<C> where
 		self.0.entry(right.clone()).or_insert((None, Some(0))).1
 			.as_mut().map(|v| *v += 1);
 
-		self.0.insert(key, (Some((left, right)), Some(0)));
+		// The key may already be known without its children, because it is
+		// used as a leaf or comes from a proof. Keep its reference count.
+		self.0.entry(key).or_insert((None, Some(0))).0 = Some((left, right));
 		Ok(())
 	}
 }
-- 
2.43.0


From 6555c42e1ca751139a0a1836d7a5942ab9685751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 02/20] fix: bounded vectors were refused below, and accepted
 above, their maximum length

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index 08fcab1..2db43f9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -234,7 +234,7 @@ impl<C: Construct> Vector<Owned, C> {
 		max_len: Option<u64>
 	) -> Result<Self, Error<DB::Error>> {
 		if let Some(max_len) = max_len {
-			if (len as u64) < max_len || max_len == 0 {
+			if (len as u64) > max_len || max_len == 0 {
 				return Err(Error::InvalidParameter)
 			}
 		}
-- 
2.43.0


From ac6182ff396c0356e788d276a1db94824744d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 03/20] fix: decoding an H512 panicked

---
 le/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/fixed.rs b/le/src/fixed.rs
index b932c2b..bda7c0a 100644
--- a/le/src/fixed.rs
+++ b/le/src/fixed.rs
@@ -107,7 +107,7 @@ impl FromTree for H512 {
 	fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 32, None)?;
+		let value = ElementalFixedVec::<u8>::from_compact_vector_tree(root, db, 64, None)?;
 		Ok(Self::from_slice(value.0.as_ref()))
 	}
 }
-- 
2.43.0


From 6e10f1e9f2e9db5899071893699178f45523f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 04/20] fix: packed U256 values were decoded as big endian

---
 le/src/elemental_fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 4cfc61a..28b2a7c 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -161,7 +161,7 @@ impl FromCompactVectorTree for ElementalFixedVec<U256> {
 		let mut ret = Vec::new();
 		for i in 0..len {
 			let value = vector.get(db, i)?;
-			ret.push(U256::from(value.as_ref()));
+			ret.push(U256::from_little_endian(value.as_ref()));
 		}
 
 		Ok(Self(ret))
-- 
2.43.0


From aea791bbfe889788364fae73ea83b1843301b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 05/20] fix: a push that failed or was interrupted left the
 vector with a wrong length or a lost tree

---
 src/vector.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 2db43f9..c17bb75 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -4,7 +4,6 @@ use crate::index::Index;
 
 const ROOT_INDEX: Index = Index::root();
 const EXTEND_INDEX: Index = Index::root().left();
-const EMPTY_INDEX: Index = Index::root().right();
 
 /// `Vector` with owned root.
 pub type OwnedVector<C> = Vector<Owned, C>;
@@ -24,18 +23,25 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		Index::from_depth(i, self.depth())
 	}
 
+	// Double the capacity and put the value into the first free position.
+	// The root is replaced once, after all nodes of the new tree exist.
 	fn extend<DB: WriteBackend<Construct=C> + ?Sized>(
 		&mut self,
-		db: &mut DB
+		db: &mut DB,
+		value: C::Value
 	) -> Result<(), Error<DB::Error>> {
-		let root = self.root();
-		let mut new_raw = Raw::default();
-		let empty = C::empty_at(db, self.depth())?;
-		new_raw.set(db, EXTEND_INDEX, root)?;
-		new_raw.set(db, EMPTY_INDEX, empty)?;
-		self.raw.set(db, ROOT_INDEX, Default::default())?;
-		self.raw = new_raw;
-		Ok(())
+		let mut right = value;
+		for depth_to_bottom in 0..self.depth() {
+			let empty = C::empty_at(db, depth_to_bottom)?;
+			let key = C::intermediate_of(&right, &empty);
+			db.insert(key.clone(), (right, empty))?;
+			right = key;
+		}
+
+		let left = self.root();
+		let key = C::intermediate_of(&left, &right);
+		db.insert(key.clone(), (left, right))?;
+		self.raw.set(db, ROOT_INDEX, key)
 	}
 
 	fn shrink<DB: WriteBackend<Construct=C> + ?Sized>(
@@ -116,16 +122,14 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		if (old_len as u64) == self.current_max_len() {
 			if self.max_len.is_some() {
 				return Err(Error::AccessOverflowed)
-			} else {
-				self.extend(db)?;
 			}
+			self.extend(db, value)?;
+		} else {
+			let raw_index = self.raw_index(old_len);
+			self.raw.set(db, raw_index, value)?;
 		}
-		let len = old_len + 1;
-		let index = old_len;
-		self.len = len;
 
-		let raw_index = self.raw_index(index);
-		self.raw.set(db, raw_index, value)?;
+		self.len = old_len + 1;
 		Ok(())
 	}
 
-- 
2.43.0


From a32748f00ad5977aae5080cb8de2be4135c53afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 06/20] fix: a pop that failed or was interrupted left the
 vector torn, and lost nodes when shrinking a list

---
 src/vector.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index c17bb75..695a021 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -48,11 +48,12 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		&mut self,
 		db: &mut DB
 	) -> Result<(), Error<DB::Error>> {
-		match self.raw.get(db, EXTEND_INDEX)? {
-			Some(extended_value) => { self.raw.set(db, ROOT_INDEX, extended_value)?; },
-			None => { self.raw.set(db, ROOT_INDEX, Default::default())?; },
-		}
-		Ok(())
+		let root = if self.len() == 1 {
+			Default::default()
+		} else {
+			self.raw.get(db, EXTEND_INDEX)?.ok_or(Error::CorruptedDatabase)?
+		};
+		self.raw.set(db, ROOT_INDEX, root)
 	}
 
 	/// Current maximum length of the vector.
@@ -148,6 +149,13 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let raw_index = self.raw_index(index);
 		let value = self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)?;
 
+		if self.max_len.is_none() && (len as u64) <= self.current_max_len() / 2 {
+			// The remaining values are exactly the left half.
+			self.shrink(db)?;
+			self.len = len;
+			return Ok(Some(value))
+		}
+
 		let mut empty_depth_to_bottom = 0;
 		let mut replace_index = raw_index;
 		loop {
@@ -164,12 +172,6 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		}
 		let empty = C::empty_at(db, empty_depth_to_bottom)?;
 		self.raw.set(db, replace_index, empty)?;
-
-		if (len as u64) <= self.current_max_len() / 2 {
-			if self.max_len.is_none() {
-				self.shrink(db)?;
-			}
-		}
 		self.len = len;
 		Ok(Some(value))
 	}
-- 
2.43.0


From 8cb51048878cd842cb7ca2c75e014213b69eb553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 07/20] fix: a failed or interrupted list operation left items
 and length of different versions

---
 src/length.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/length.rs b/src/length.rs
index 723a380..2be75a9 100644
--- a/src/length.rs
+++ b/src/length.rs
@@ -53,21 +53,39 @@ impl<R: RootStatus, C: Construct, S> LengthMixed<R, C, S> where
 	}
 
 	/// Call with a mutable reference to the inner sequence.
+	///
+	/// Items and length change together. If anything fails, the inner
+	/// sequence is restored to what it was before the call.
 	pub fn with_mut<DB: WriteBackend<Construct=C> + ?Sized, RT, F>(
 		&mut self,
 		db: &mut DB,
 		f: F
 	) -> Result<RT, Error<DB::Error>> where
+		S: Leak,
 		F: FnOnce(&mut S, &mut DB) -> Result<RT, Error<DB::Error>>
 	{
-		let ret = f(&mut self.inner, db)?;
-		let new_len = self.inner.len();
-		let new_inner_root = self.inner.root();
+		let metadata = self.inner.metadata();
+		let ret = f(&mut self.inner, db).and_then(|ret| {
+			self.update(db)?;
+			Ok(ret)
+		});
+
+		if ret.is_err() {
+			self.inner = S::from_leaked(metadata);
+		}
+		ret
+	}
 
-		self.raw.set(db, ITEM_ROOT_INDEX, new_inner_root)?;
-		self.raw.set(db, LEN_INDEX, new_len.into())?;
+	fn update<DB: WriteBackend<Construct=C> + ?Sized>(
+		&mut self,
+		db: &mut DB,
+	) -> Result<(), Error<DB::Error>> {
+		let new_len: C::Value = self.inner.len().into();
+		let new_inner_root = self.inner.root();
 
-		Ok(ret)
+		let root = C::intermediate_of(&new_inner_root, &new_len);
+		db.insert(root.clone(), (new_inner_root, new_len))?;
+		self.raw.set(db, Index::root(), root)
 	}
 }
 
-- 
2.43.0


From 135727fbcefa9706607e7304ebe5e4afea86d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 08/20] fix: packed sequences accepted accesses past their
 length and pushes past their maximum length

---
 src/packed.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/packed.rs b/src/packed.rs
index 506bd61..7046fbc 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -51,6 +51,10 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 {
 	/// Get value at index.
 	pub fn get<DB: ReadBackend<Construct=C> + ?Sized>(&self, db: &mut DB, index: usize) -> Result<T, Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let mut ret = GenericArray::<u8, V>::default();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -66,6 +70,15 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Set value at index.
 	pub fn set<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
+		if index >= self.len {
+			return Err(Error::AccessOverflowed)
+		}
+
+		self.write(db, index, value)
+	}
+
+	// Write the value at given index, whose nodes exist.
+	fn write<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
@@ -82,13 +95,17 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
+		if self.max_len.map(|max_len| self.len as u64 >= max_len).unwrap_or(false) {
+			return Err(Error::AccessOverflowed)
+		}
+
 		let index = self.len;
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
 		while self.tuple.len() < covering_base + covering_ranges.len() {
 			self.tuple.push(db, Default::default())?;
 		}
-		self.set(db, index, value)?;
+		self.write(db, index, value)?;
 		self.len += 1;
 		Ok(())
 	}
@@ -195,6 +212,10 @@ impl<C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<Owned
 {
 	/// Create a new tuple.
 	pub fn create<DB: WriteBackend<Construct=C> + ?Sized>(db: &mut DB, value_len: usize, value_max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
+		if value_max_len.map(|max_len| value_len as u64 > max_len).unwrap_or(false) {
+			return Err(Error::InvalidParameter)
+		}
+
 		let host_max_len = value_max_len.map(|l| host_max_len::<H, V>(l));
 		let host_len = host_len::<H, V>(value_len);
 
-- 
2.43.0


From b7630e3d14103540a71fcc1c502bb2d7990d5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 09/20] fix: popping a packed value destroyed its neighbours,
 and failed packed operations were half done

---
 src/packed.rs | 89 ++++++++++++++++++++++++++++++++++++---------------
 src/vector.rs | 11 +++++++
 2 files changed, 74 insertions(+), 26 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index 7046fbc..d40e3f7 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -31,6 +31,38 @@ fn coverings<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_index: usize)
 	(host_index, ranges)
 }
 
+// An update of several nodes of a tuple. It is built next to the tuple, which
+// changes only when all steps were successful.
+struct Update<C: Construct> {
+	tuple: Vector<Dangling, C>,
+	original_root: C::Value,
+}
+
+impl<C: Construct> Update<C> where
+	C::Value: AsRef<[u8]>,
+{
+	fn new<R: RootStatus>(tuple: &Vector<R, C>) -> Self {
+		Self {
+			tuple: Vector::from_leaked(tuple.metadata()),
+			original_root: tuple.root(),
+		}
+	}
+
+	fn step<DB: WriteBackend<Construct=C> + ?Sized, F>(&mut self, db: &mut DB, f: F) -> Result<(), Error<DB::Error>> where
+		F: FnOnce(&mut Vector<Dangling, C>, &mut DB) -> Result<(), Error<DB::Error>>
+	{
+		let previous = self.tuple.root();
+		f(&mut self.tuple, db)?;
+
+		// Nodes that belong to an intermediate state only are removed.
+		if previous.as_ref() != self.original_root.as_ref() && previous.as_ref() != self.tuple.root().as_ref() {
+			db.rootify(&previous)?;
+			db.unrootify(&previous)?;
+		}
+		Ok(())
+	}
+}
+
 /// `PackedVector` with owned root.
 pub type OwnedPackedVector<C, T, H, V> = PackedVector<Owned, C, T, H, V>;
 
@@ -77,20 +109,32 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		self.write(db, index, value)
 	}
 
-	// Write the value at given index, whose nodes exist.
+	// Write the value at given index, adding nodes to the tuple as needed.
 	fn write<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, index: usize, value: T) -> Result<(), Error<DB::Error>> {
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
+		let mut update = Update::new(&self.tuple);
 		let mut value_offset = 0;
 		for (i, range) in covering_ranges.into_iter().enumerate() {
-			let mut host_value = self.tuple.get(db, covering_base + i)?;
+			let host_index = covering_base + i;
+			let mut host_value = if host_index < update.tuple.len() {
+				update.tuple.get(db, host_index)?
+			} else {
+				Default::default()
+			};
 			host_value.as_mut()[range.clone()].copy_from_slice(&value[value_offset..(value_offset + range.end - range.start)]);
-			self.tuple.set(db, covering_base + i, host_value)?;
+			update.step(db, |tuple, db| {
+				if host_index < tuple.len() {
+					tuple.set(db, host_index, host_value)
+				} else {
+					tuple.push(db, host_value)
+				}
+			})?;
 			value_offset += range.end - range.start;
 		}
 
-		Ok(())
+		self.tuple.replace(db, update.tuple)
 	}
 
 	/// Push a new value to the tuple.
@@ -99,13 +143,7 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 			return Err(Error::AccessOverflowed)
 		}
 
-		let index = self.len;
-		let (covering_base, covering_ranges) = coverings::<H, V>(index);
-
-		while self.tuple.len() < covering_base + covering_ranges.len() {
-			self.tuple.push(db, Default::default())?;
-		}
-		self.write(db, index, value)?;
+		self.write(db, self.len, value)?;
 		self.len += 1;
 		Ok(())
 	}
@@ -119,25 +157,24 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let index = self.len - 1;
 		let ret = self.get(db, index)?;
 
-		if self.len == 1 {
-			while self.tuple.len() > 0 {
-				self.tuple.pop(db)?;
-			}
-		} else {
-			let last_index = index - 1;
+		let new_host_len = host_len::<H, V>(index);
+		let mut update = Update::new(&self.tuple);
+		while update.tuple.len() > new_host_len {
+			update.step(db, |tuple, db| tuple.pop(db).map(|_| ()))?;
+		}
 
-			let (covering_base, covering_ranges) = coverings::<H, V>(last_index);
-			while self.tuple.len() > covering_base + covering_ranges.len() {
-				self.tuple.pop(db)?;
+		// The last node may be shared with values that stay.
+		let used = index * V::to_usize() % H::to_usize();
+		if used > 0 {
+			let mut host_value = update.tuple.get(db, new_host_len - 1)?;
+			for byte in host_value.as_mut()[used..].iter_mut() {
+				*byte = 0;
 			}
-
-			let last_value = self.get(db, last_index)?;
-			self.tuple.pop(db)?;
-			self.tuple.push(db, Default::default())?;
-			self.set(db, last_index, last_value)?;
+			update.step(db, |tuple, db| tuple.set(db, new_host_len - 1, host_value))?;
 		}
 
-		self.len -= 1;
+		self.tuple.replace(db, update.tuple)?;
+		self.len = index;
 		Ok(Some(ret))
 	}
 
diff --git a/src/vector.rs b/src/vector.rs
index 695a021..067fe58 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -181,6 +181,17 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		self.len
 	}
 
+	/// Replace the whole vector by another with the same maximum length.
+	pub(crate) fn replace<DB: WriteBackend<Construct=C> + ?Sized>(
+		&mut self,
+		db: &mut DB,
+		other: Vector<Dangling, C>
+	) -> Result<(), Error<DB::Error>> {
+		self.raw.set(db, ROOT_INDEX, other.root())?;
+		self.len = other.len;
+		Ok(())
+	}
+
 	/// Create a tuple from raw merkle tree.
 	pub fn from_raw(raw: Raw<R, C>, len: usize, max_len: Option<u64>) -> Self {
 		Self { raw, len, max_len }
-- 
2.43.0


From 25d9de0e7a3c343beecb26a00d7b559b811ae2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 10/20] fix: proofs lacked existing nodes that were inserted
 again before being read

---
 src/proving.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proving.rs b/src/proving.rs
index 94b8340..6152394 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -111,7 +111,11 @@ impl<'a, DB: WriteBackend + ?Sized> WriteBackend for ProvingBackend<'a, DB> wher
 		key: <DB::Construct as Construct>::Value,
 		value: (<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)
 	) -> Result<(), Self::Error> {
-		self.state.inserts.insert(key.clone());
+		// A node that exists already is not created by this operation, and
+		// goes into the proof when it is read.
+		if self.db.get(&key)?.is_none() {
+			self.state.inserts.insert(key.clone());
+		}
 		self.db.insert(key, value)
 	}
 }
-- 
2.43.0


From 629374250d01cc4e2d6fc823fb33193c10c75f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 11/20] fix: items of partially loaded lists were looked up in
 the wrong place

---
 le/src/partial.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index 870556e..bedf34c 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -86,6 +86,15 @@ impl PartialIndex {
 			},
 		};
 
+		if index >= len {
+			return Err(Error::AccessOverflowed)
+		}
+
+		let parent = match self.sub {
+			PartialSubIndex::List(_) => parent.left(),
+			_ => parent,
+		};
+
 		let mut max_len = 1;
 		let mut depth = 0;
 		while max_len < len {
-- 
2.43.0


From 1176bff25106032f9b032ce10a046bc04dd344d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 12/20] fix: a failed flush lost the pending change, and a
 flush wrote back values that were only read

---
 le/src/partial.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index bedf34c..fcd3c97 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -113,6 +113,7 @@ impl PartialIndex {
 pub struct PartialValue<T> {
 	index: PartialIndex,
 	value: Option<T>,
+	changed: bool,
 }
 
 impl<T: FromTree> PartialValue<T> {
@@ -129,6 +130,7 @@ impl<T: FromTree> PartialValue<T> {
 		let value = T::from_tree(&index_root, db)?;
 
 		self.value = Some(value);
+		self.changed = false;
 		Ok(())
 	}
 
@@ -150,6 +152,7 @@ impl<T: FromTree> PartialValue<T> {
 	/// Set the partial value.
 	pub fn set(&mut self, value: T) {
 		self.value = Some(value);
+		self.changed = true;
 	}
 }
 
@@ -157,7 +160,8 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	fn new(index: PartialIndex) -> Self {
 		Self {
 			index,
-			value: None
+			value: None,
+			changed: false,
 		}
 	}
 
@@ -168,13 +172,17 @@ impl<T: IntoTree> PartialItem for PartialValue<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct
 	{
-		if let Some(value) = self.value.take() {
-			let index = self.index.resolve(raw, db)?;
-			let value_root = value.into_tree(db)?;
+		if self.changed {
+			if let Some(value) = &self.value {
+				let index = self.index.resolve(raw, db)?;
+				let value_root = value.into_tree(db)?;
 
-			raw.set(db, index, value_root)?;
+				raw.set(db, index, value_root)?;
+			}
 		}
 
+		self.value = None;
+		self.changed = false;
 		Ok(())
 	}
 }
-- 
2.43.0


From 57d920477dd686e7ed1403fcaf77b169b75117b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 13/20] fix: values pushed to a partially loaded list were
 never written, and a failed flush lost its changes

---
 le/src/partial.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index fcd3c97..a095af3 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -1,6 +1,5 @@
 use bm::{Index, Error, ReadBackend, RootStatus, Raw, DanglingList, Tree, WriteBackend};
 use primitive_types::{U256, H256};
-use core::mem;
 #[cfg(not(feature = "std"))]
 use alloc::collections::BTreeMap as Map;
 #[cfg(feature = "std")]
@@ -225,21 +224,23 @@ impl<T: Partialable + IntoTree> PartialItem for PartialVec<T> {
 	) -> Result<(), Error<DB::Error>> where
 		DB::Construct: CompatibleConstruct,
 	{
-		let mut values = Map::default();
-		mem::swap(&mut values, &mut self.values);
-
-		for (_, mut value) in values {
+		for value in self.values.values_mut() {
 			value.flush(raw, db)?;
 		}
 
-		let mut pushed = Vec::default();
-		mem::swap(&mut pushed, &mut self.pushed);
-		let mut list = DanglingList::reconstruct(raw.root(), db, None)?;
-		for value in pushed {
-			let value_root = value.into_tree(db)?;
-			list.push(db, value_root)?;
+		if !self.pushed.is_empty() {
+			let index = self.index.resolve(raw, db)?;
+			let list_root = raw.get(db, index)?.ok_or(Error::CorruptedDatabase)?;
+			let mut list = DanglingList::reconstruct(list_root, db, None)?;
+			for value in &self.pushed {
+				let value_root = value.into_tree(db)?;
+				list.push(db, value_root)?;
+			}
+			raw.set(db, index, list.root())?;
 		}
 
+		self.values.clear();
+		self.pushed.clear();
 		Ok(())
 	}
 }
-- 
2.43.0


From 4af852ce2b35e85502c85f2a5b6eac2a2798dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 14/20] fix: packed operations on several nodes could remove
 nodes of the new tree

Releasing the intermediate states between the steps of a packed operation
removed the new tree when it happened to be a part of an intermediate one.
Build the new tree in one pass instead, without intermediate states.
---
 src/packed.rs | 62 +++++++--------------------------------
 src/vector.rs | 81 +++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 86 insertions(+), 57 deletions(-)

diff --git a/src/packed.rs b/src/packed.rs
index d40e3f7..804b6b1 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -31,38 +31,6 @@ fn coverings<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_index: usize)
 	(host_index, ranges)
 }
 
-// An update of several nodes of a tuple. It is built next to the tuple, which
-// changes only when all steps were successful.
-struct Update<C: Construct> {
-	tuple: Vector<Dangling, C>,
-	original_root: C::Value,
-}
-
-impl<C: Construct> Update<C> where
-	C::Value: AsRef<[u8]>,
-{
-	fn new<R: RootStatus>(tuple: &Vector<R, C>) -> Self {
-		Self {
-			tuple: Vector::from_leaked(tuple.metadata()),
-			original_root: tuple.root(),
-		}
-	}
-
-	fn step<DB: WriteBackend<Construct=C> + ?Sized, F>(&mut self, db: &mut DB, f: F) -> Result<(), Error<DB::Error>> where
-		F: FnOnce(&mut Vector<Dangling, C>, &mut DB) -> Result<(), Error<DB::Error>>
-	{
-		let previous = self.tuple.root();
-		f(&mut self.tuple, db)?;
-
-		// Nodes that belong to an intermediate state only are removed.
-		if previous.as_ref() != self.original_root.as_ref() && previous.as_ref() != self.tuple.root().as_ref() {
-			db.rootify(&previous)?;
-			db.unrootify(&previous)?;
-		}
-		Ok(())
-	}
-}
-
 /// `PackedVector` with owned root.
 pub type OwnedPackedVector<C, T, H, V> = PackedVector<Owned, C, T, H, V>;
 
@@ -114,27 +82,21 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let value: GenericArray<u8, V> = value.into();
 		let (covering_base, covering_ranges) = coverings::<H, V>(index);
 
-		let mut update = Update::new(&self.tuple);
+		let mut host_values = Vec::new();
 		let mut value_offset = 0;
 		for (i, range) in covering_ranges.into_iter().enumerate() {
-			let host_index = covering_base + i;
-			let mut host_value = if host_index < update.tuple.len() {
-				update.tuple.get(db, host_index)?
+			let mut host_value = if covering_base + i < self.tuple.len() {
+				self.tuple.get(db, covering_base + i)?
 			} else {
 				Default::default()
 			};
 			host_value.as_mut()[range.clone()].copy_from_slice(&value[value_offset..(value_offset + range.end - range.start)]);
-			update.step(db, |tuple, db| {
-				if host_index < tuple.len() {
-					tuple.set(db, host_index, host_value)
-				} else {
-					tuple.push(db, host_value)
-				}
-			})?;
 			value_offset += range.end - range.start;
+			host_values.push(host_value);
 		}
 
-		self.tuple.replace(db, update.tuple)
+		let new_host_len = cmp::max(self.tuple.len(), covering_base + host_values.len());
+		self.tuple.splice(db, new_host_len, covering_base, &host_values)
 	}
 
 	/// Push a new value to the tuple.
@@ -158,22 +120,18 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let ret = self.get(db, index)?;
 
 		let new_host_len = host_len::<H, V>(index);
-		let mut update = Update::new(&self.tuple);
-		while update.tuple.len() > new_host_len {
-			update.step(db, |tuple, db| tuple.pop(db).map(|_| ()))?;
-		}
-
 		// The last node may be shared with values that stay.
+		let mut host_values = Vec::new();
 		let used = index * V::to_usize() % H::to_usize();
 		if used > 0 {
-			let mut host_value = update.tuple.get(db, new_host_len - 1)?;
+			let mut host_value = self.tuple.get(db, new_host_len - 1)?;
 			for byte in host_value.as_mut()[used..].iter_mut() {
 				*byte = 0;
 			}
-			update.step(db, |tuple, db| tuple.set(db, new_host_len - 1, host_value))?;
+			host_values.push(host_value);
 		}
 
-		self.tuple.replace(db, update.tuple)?;
+		self.tuple.splice(db, new_host_len, new_host_len - host_values.len(), &host_values)?;
 		self.len = index;
 		Ok(Some(ret))
 	}
diff --git a/src/vector.rs b/src/vector.rs
index 067fe58..4ea5cff 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -181,14 +181,36 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		self.len
 	}
 
-	/// Replace the whole vector by another with the same maximum length.
-	pub(crate) fn replace<DB: WriteBackend<Construct=C> + ?Sized>(
+	/// Change the length, and the values starting from the given index. The
+	/// root is replaced once, after all nodes of the new tree exist.
+	pub(crate) fn splice<DB: WriteBackend<Construct=C> + ?Sized>(
 		&mut self,
 		db: &mut DB,
-		other: Vector<Dangling, C>
+		new_len: usize,
+		start: usize,
+		values: &[C::Value]
 	) -> Result<(), Error<DB::Error>> {
-		self.raw.set(db, ROOT_INDEX, other.root())?;
-		self.len = other.len;
+		let old_depth = self.depth();
+		let new_depth = Self { raw: Raw::default(), max_len: self.max_len, len: new_len }.depth();
+
+		let mut root = self.root();
+		if new_depth < old_depth && new_len > 0 {
+			for _ in new_depth..old_depth {
+				root = db.get(&root)?.ok_or(Error::CorruptedDatabase)?.0;
+			}
+		}
+
+		let splice = Splice { old_len: self.len, new_len, start, values };
+		root = splice.build(db, Some(root), core::cmp::min(old_depth, new_depth), 0)?;
+		for depth in old_depth..new_depth {
+			let right = splice.build(db, None, depth, 1 << depth)?;
+			let key = C::intermediate_of(&root, &right);
+			db.insert(key.clone(), (root, right))?;
+			root = key;
+		}
+
+		self.raw.set(db, ROOT_INDEX, root)?;
+		self.len = new_len;
 		Ok(())
 	}
 
@@ -198,6 +220,55 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 	}
 }
 
+struct Splice<'a, V> {
+	old_len: usize,
+	new_len: usize,
+	start: usize,
+	values: &'a [V],
+}
+
+impl<'a, V: Clone + Default> Splice<'a, V> {
+	// Build the subtree that holds the values from `base` on. `current` is the
+	// same subtree before the change.
+	fn build<C: Construct<Value=V>, DB: WriteBackend<Construct=C> + ?Sized>(
+		&self,
+		db: &mut DB,
+		current: Option<V>,
+		depth: usize,
+		base: usize
+	) -> Result<V, Error<DB::Error>> {
+		let end = if self.new_len < self.old_len { self.old_len } else { self.start + self.values.len() };
+		let changed = base < end && (self.start < base || (self.start - base) >> depth == 0);
+
+		if let (Some(current), false) = (&current, changed) {
+			return Ok(current.clone())
+		}
+		if base >= self.new_len {
+			return Ok(C::empty_at(db, depth)?)
+		}
+		if depth == 0 {
+			return Ok(match self.values.get(base - self.start) {
+				Some(value) => value.clone(),
+				None => current.unwrap_or_default(),
+			})
+		}
+
+		let (left, right) = match current {
+			Some(current) => {
+				let (left, right) = db.get(&current)?.unwrap_or_default();
+				(Some(left), Some(right))
+			},
+			None => (None, None),
+		};
+		let left = self.build(db, left, depth - 1, base)?;
+		let right = self.build(db, right, depth - 1, base + (1 << (depth - 1)))?;
+
+		let key = C::intermediate_of(&left, &right);
+		db.insert(key.clone(), (left, right))?;
+		Ok(key)
+	}
+}
+
 impl<R: RootStatus, C: Construct> Tree for Vector<R, C> {
 	type RootStatus = R;
 	type Construct = C;
-- 
2.43.0


From 2f7eb2d8516a00685f1544afb451e66e0285a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 15/20] fix: keep the children of populated nodes

A child that some tree already counts was removed with that tree, while
it is still reachable through the populated node.
---
 src/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 8c16163..3d1fbc6 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -214,8 +214,10 @@ impl<C: Construct> InMemoryBackend<C> where
 	pub fn populate(&mut self, proofs: Map<C::Value, (C::Value, C::Value)>) {
 		for (key, (left, right)) in proofs {
 			self.0.insert(key, (Some((left.clone(), right.clone())), None));
-			self.0.entry(left).or_insert((None, None));
-			self.0.entry(right).or_insert((None, None));
+			// The children may already be counted nodes of some tree. This
+			// reference to them is not counted, so they must stay as well.
+			self.0.entry(left).or_insert((None, None)).1 = None;
+			self.0.entry(right).or_insert((None, None)).1 = None;
 		}
 	}
 }
-- 
2.43.0


From 0bc4056754f055e84bcb1fb0c0f6e19e7562049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 16/20] fix: expand repeated proof entries only once in compact
 proofs

A node whose children are equal, as in every empty subtree, was expanded
twice, so that the compact form of the proof of a write to an empty list
with room for 2^40 elements (40 entries) had 2^40 leaves.
---
 src/proving.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/proving.rs b/src/proving.rs
index 6152394..d3254f4 100644
--- a/src/proving.rs
+++ b/src/proving.rs
@@ -165,13 +165,21 @@ impl<V: Eq + Hash + Ord + fmt::Debug> fmt::Debug for Proofs<V> {
 
 impl<V: Eq + Hash + Ord + Clone + Default> Proofs<V> {
 	/// Create compact merkle proofs from complete entries.
+	///
+	/// An entry that is found under the root several times, as those of
+	/// empty subtrees are, is expanded only where it is found first.
 	pub fn into_compact(&self, root: V) -> CompactValue<V> {
-		if let Some((left, right)) = self.0.get(&root) {
-			let compact_left = self.into_compact(left.clone());
-			let compact_right = self.into_compact(right.clone());
-			CompactValue::Combined(Box::new((compact_left, compact_right)))
-		} else {
-			CompactValue::Single(root)
+		self.into_compact_once(root, &mut Default::default())
+	}
+
+	fn into_compact_once(&self, root: V, expanded: &mut Set<V>) -> CompactValue<V> {
+		match self.0.get(&root) {
+			Some((left, right)) if expanded.insert(root.clone()) => {
+				let compact_left = self.into_compact_once(left.clone(), expanded);
+				let compact_right = self.into_compact_once(right.clone(), expanded);
+				CompactValue::Combined(Box::new((compact_left, compact_right)))
+			},
+			_ => CompactValue::Single(root),
 		}
 	}
 
-- 
2.43.0


From a0557abb557be57a0d95a343ea728f3a8fa6ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 17/20] fix: refuse lists that are longer than their maximum
 length

---
 le/src/elemental_variable.rs | 4 ++++
 src/list.rs                  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/le/src/elemental_variable.rs b/le/src/elemental_variable.rs
index 857274e..07fadbf 100644
--- a/le/src/elemental_variable.rs
+++ b/le/src/elemental_variable.rs
@@ -117,6 +117,10 @@ fn from_list_tree<T, F, DB: ReadBackend>(
 {
 	let (vector_root, len) = decode_with_length::<<DB::Construct as Construct>::Value, _>(root, db)?;
 
+	if max_len.map(|max_len| (len as u64) > max_len).unwrap_or(false) {
+		return Err(Error::CorruptedDatabase)
+	}
+
 	let vector = f(
 		&vector_root, db, len, max_len
 	)?;
diff --git a/src/list.rs b/src/list.rs
index abcee0f..1a8ad86 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -43,6 +43,10 @@ impl<R: RootStatus, C: Construct> List<R, C> where
 	/// Reconstruct the vector from a single hash value.
 	pub fn reconstruct<DB: WriteBackend<Construct=C> + ?Sized>(root: C::Value, db: &mut DB, max_len: Option<u64>) -> Result<Self, Error<DB::Error>> {
 		Ok(Self(LengthMixed::reconstruct(root, db, |tuple_raw, _db, len| {
+			if max_len.map(|max_len| (len as u64) > max_len).unwrap_or(false) {
+				return Err(Error::CorruptedDatabase)
+			}
+
 			Ok(Vector::<Dangling, C>::from_raw(tuple_raw, len, max_len))
 		})?))
 	}
-- 
2.43.0


From 3c6ccc70b08be9a1ef9c4ff87abecabc1345e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 18/20] fix: refuse vectors beyond the range of indices instead
 of overflowing

---
 src/utils.rs  |  2 +-
 src/vector.rs | 33 +++++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 575efd5..a196100 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,7 +9,7 @@ pub fn required_depth(len: u64) -> usize {
 	let mut max_len = 1;
 	let mut total_depth = 0;
 	while max_len < len {
-		max_len *= 2;
+		max_len = u64::saturating_mul(max_len, 2);
 		total_depth += 1;
 	}
 	total_depth
diff --git a/src/vector.rs b/src/vector.rs
index 4ea5cff..9ad2b77 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -4,6 +4,7 @@ use crate::index::Index;
 
 const ROOT_INDEX: Index = Index::root();
 const EXTEND_INDEX: Index = Index::root().left();
+const MAX_DEPTH: usize = core::mem::size_of::<usize>() * 8 - 1;
 
 /// `Vector` with owned root.
 pub type OwnedVector<C> = Vector<Owned, C>;
@@ -19,8 +20,14 @@ pub struct Vector<R: RootStatus, C: Construct> {
 }
 
 impl<R: RootStatus, C: Construct> Vector<R, C> {
-	fn raw_index(&self, i: usize) -> Index {
-		Index::from_depth(i, self.depth())
+	// Values of a vector so large that its indices do not fit cannot be
+	// accessed.
+	fn raw_index<E>(&self, i: usize) -> Result<Index, Error<E>> {
+		let depth = self.depth();
+		if depth > MAX_DEPTH {
+			return Err(Error::AccessOverflowed)
+		}
+		Ok(Index::from_depth(i, depth))
 	}
 
 	// Double the capacity and put the value into the first free position.
@@ -61,7 +68,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		self.max_len.unwrap_or({
 			let mut max_len = 1;
 			while max_len < self.len as u64 {
-				max_len *= 2;
+				max_len = u64::saturating_mul(max_len, 2);
 			}
 			max_len
 		})
@@ -77,7 +84,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 		let mut max_len = 1;
 		let mut depth = 0;
 		while max_len < self.current_max_len() {
-			max_len *= 2;
+			max_len = u64::saturating_mul(max_len, 2);
 			depth += 1;
 		}
 		depth
@@ -93,7 +100,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 			return Err(Error::AccessOverflowed)
 		}
 
-		let raw_index = self.raw_index(index);
+		let raw_index = self.raw_index(index)?;
 		self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)
 	}
 
@@ -108,7 +115,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 			return Err(Error::AccessOverflowed)
 		}
 
-		let raw_index = self.raw_index(index);
+		let raw_index = self.raw_index(index)?;
 		self.raw.set(db, raw_index, value)?;
 		Ok(())
 	}
@@ -121,12 +128,12 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 	) -> Result<(), Error<DB::Error>> {
 		let old_len = self.len();
 		if (old_len as u64) == self.current_max_len() {
-			if self.max_len.is_some() {
+			if self.max_len.is_some() || self.depth() >= MAX_DEPTH {
 				return Err(Error::AccessOverflowed)
 			}
 			self.extend(db, value)?;
 		} else {
-			let raw_index = self.raw_index(old_len);
+			let raw_index = self.raw_index(old_len)?;
 			self.raw.set(db, raw_index, value)?;
 		}
 
@@ -146,7 +153,7 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 
 		let len = old_len - 1;
 		let index = old_len - 1;
-		let raw_index = self.raw_index(index);
+		let raw_index = self.raw_index(index)?;
 		let value = self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)?;
 
 		if self.max_len.is_none() && (len as u64) <= self.current_max_len() / 2 {
@@ -192,6 +199,9 @@ impl<R: RootStatus, C: Construct> Vector<R, C> {
 	) -> Result<(), Error<DB::Error>> {
 		let old_depth = self.depth();
 		let new_depth = Self { raw: Raw::default(), max_len: self.max_len, len: new_len }.depth();
+		if old_depth > MAX_DEPTH || new_depth > MAX_DEPTH {
+			return Err(Error::AccessOverflowed)
+		}
 
 		let mut root = self.root();
 		if new_depth < old_depth && new_len > 0 {
@@ -333,9 +343,12 @@ impl<C: Construct> Vector<Owned, C> {
 		let mut current_max_len = 1;
 		let mut depth = 0;
 		while current_max_len < target_len {
-			current_max_len *= 2;
+			current_max_len = u64::saturating_mul(current_max_len, 2);
 			depth += 1;
 		}
+		if depth > MAX_DEPTH {
+			return Err(Error::InvalidParameter)
+		}
 
 		let empty = C::empty_at(db, depth)?;
 		raw.set(db, ROOT_INDEX, empty)?;
-- 
2.43.0


From 4d10c47740ecd624f2df81d6d3236bc4b53d7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 19/20] fix: count bytes of large packed vectors without
 overflowing

---
 le/src/elemental_fixed.rs |  4 ++--
 src/packed.rs             | 14 +++++++-------
 src/utils.rs              | 12 +++++++-----
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/le/src/elemental_fixed.rs b/le/src/elemental_fixed.rs
index 28b2a7c..24d25f7 100644
--- a/le/src/elemental_fixed.rs
+++ b/le/src/elemental_fixed.rs
@@ -184,7 +184,7 @@ impl<'a> IntoCompactVectorTree for ElementalFixedVecRef<'a, bool> {
 		}
 
 		ElementalFixedVecRef(&bytes).into_compact_vector_tree(db, max_len.map(|l| {
-			(l + 7) / 8
+			l / 8 + (l % 8 != 0) as u64
 		}))
 	}
 }
@@ -199,7 +199,7 @@ impl FromCompactVectorTree for ElementalFixedVec<bool> {
 		DB::Construct: CompatibleConstruct,
 	{
 		let packed = DanglingPackedVector::<DB::Construct, GenericArray<u8, typenum::U1>, typenum::U32, typenum::U1>::from_leaked(
-			(root.clone(), (len + 7) / 8, max_len.map(|l| (l + 7) / 8))
+			(root.clone(), len / 8 + (len % 8 != 0) as usize, max_len.map(|l| l / 8 + (l % 8 != 0) as u64))
 		);
 
 		let mut bytes = Vec::new();
diff --git a/src/packed.rs b/src/packed.rs
index 804b6b1..daebc23 100644
--- a/src/packed.rs
+++ b/src/packed.rs
@@ -14,9 +14,9 @@ fn coverings<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_index: usize)
 	let host_len = Host::to_usize();
 	let value_len = Value::to_usize();
 
-	let bytes = value_len * value_index;
-	let host_index = bytes / host_len;
-	let offset = bytes - host_len * host_index;
+	let bytes = value_len as u128 * value_index as u128;
+	let host_index = cmp::min(bytes / host_len as u128, usize::max_value() as u128) as usize;
+	let offset = (bytes % host_len as u128) as usize;
 
 	let mut ranges = Vec::new();
 	ranges.push(offset..cmp::min(offset + value_len, host_len));
@@ -85,7 +85,7 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let mut host_values = Vec::new();
 		let mut value_offset = 0;
 		for (i, range) in covering_ranges.into_iter().enumerate() {
-			let mut host_value = if covering_base + i < self.tuple.len() {
+			let mut host_value = if covering_base.saturating_add(i) < self.tuple.len() {
 				self.tuple.get(db, covering_base + i)?
 			} else {
 				Default::default()
@@ -95,13 +95,13 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 			host_values.push(host_value);
 		}
 
-		let new_host_len = cmp::max(self.tuple.len(), covering_base + host_values.len());
+		let new_host_len = cmp::max(self.tuple.len(), covering_base.saturating_add(host_values.len()));
 		self.tuple.splice(db, new_host_len, covering_base, &host_values)
 	}
 
 	/// Push a new value to the tuple.
 	pub fn push<DB: WriteBackend<Construct=C> + ?Sized>(&mut self, db: &mut DB, value: T) -> Result<(), Error<DB::Error>> {
-		if self.max_len.map(|max_len| self.len as u64 >= max_len).unwrap_or(false) {
+		if self.len as u64 >= self.max_len.unwrap_or(u64::max_value()) {
 			return Err(Error::AccessOverflowed)
 		}
 
@@ -122,7 +122,7 @@ impl<R: RootStatus, C: Construct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> Pac
 		let new_host_len = host_len::<H, V>(index);
 		// The last node may be shared with values that stay.
 		let mut host_values = Vec::new();
-		let used = index * V::to_usize() % H::to_usize();
+		let used = index % H::to_usize() * V::to_usize() % H::to_usize();
 		if used > 0 {
 			let mut host_value = self.tuple.get(db, new_host_len - 1)?;
 			for byte in host_value.as_mut()[used..].iter_mut() {
diff --git a/src/utils.rs b/src/utils.rs
index a196100..7ceb329 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,7 @@
 //! Utilities
 
 use crate::{Construct, WriteBackend, Error};
+use core::cmp;
 use alloc::collections::VecDeque;
 use generic_array::ArrayLength;
 
@@ -45,15 +46,16 @@ pub fn vector_tree<DB: WriteBackend>(values: &[<DB::Construct as Construct>::Val
 
 /// Get the host len of a packed vector.
 pub fn host_max_len<Host: ArrayLength<u8>, Value: ArrayLength<u8>>(value_len: u64) -> u64 {
-	let host_array_len = Host::to_u64();
-	let value_array_len = Value::to_u64();
+	let host_array_len = Host::to_u64() as u128;
+	let value_array_len = Value::to_u64() as u128;
 
-	let bytes = value_array_len * value_len;
-	if bytes % host_array_len == 0 {
+	let bytes = value_array_len * value_len as u128;
+	let host_len = if bytes % host_array_len == 0 {
 		bytes / host_array_len
 	} else {
 		bytes / host_array_len + 1
-	}
+	};
+	cmp::min(host_len, u64::max_value() as u128) as u64
 }
 
 /// Get the host len of a packed vector.
-- 
2.43.0


From b3ca4c7129c4d2af4a84b345e87fff95b0832f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 20/20] fix: refuse partial indices that are too deep instead
 of overflowing

---
 le/src/partial.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/le/src/partial.rs b/le/src/partial.rs
index a095af3..e51d413 100644
--- a/le/src/partial.rs
+++ b/le/src/partial.rs
@@ -71,10 +71,10 @@ impl PartialIndex {
 		};
 
 		let (index, len) = match self.sub {
-			PartialSubIndex::Raw(raw) => return Ok(parent.sub(raw)),
+			PartialSubIndex::Raw(raw) => return descend(parent, raw),
 			PartialSubIndex::Vector(index, len) => (index, len),
 			PartialSubIndex::List(index) => {
-				let len_root = raw.get(db, parent.right())?.ok_or(Error::CorruptedDatabase)?;
+				let len_root = raw.get(db, descend(parent, Index::root().right())?)?.ok_or(Error::CorruptedDatabase)?;
 				let len = U256::from_tree(&len_root, db)?;
 
 				if len > U256::from(usize::max_value()) {
@@ -90,22 +90,40 @@ impl PartialIndex {
 		}
 
 		let parent = match self.sub {
-			PartialSubIndex::List(_) => parent.left(),
+			PartialSubIndex::List(_) => descend(parent, Index::root().left())?,
 			_ => parent,
 		};
 
-		let mut max_len = 1;
-		let mut depth = 0;
-		while max_len < len {
-			max_len *= 2;
-			depth += 1;
+		let depth = bm::utils::required_depth(len as u64);
+		if depth > MAX_DEPTH {
+			return Err(Error::AccessOverflowed)
 		}
 		let sub = Index::from_one((1 << depth) + index).expect("
 		  result is greater or equal to 1;
 		  Index::from_one always return Some; qed");
 
-		Ok(parent.sub(sub))
+		descend(parent, sub)
+	}
+}
+
+const MAX_DEPTH: usize = core::mem::size_of::<usize>() * 8 - 1;
+
+fn depth_of(mut index: Index) -> usize {
+	let mut depth = 0;
+	while let Some(parent) = index.parent() {
+		index = parent;
+		depth += 1;
+	}
+	depth
+}
+
+// The lengths of lists come from the tree, so the index they lead to may be
+// too deep.
+fn descend<E>(parent: Index, sub: Index) -> Result<Index, Error<E>> {
+	if depth_of(parent) + depth_of(sub) > MAX_DEPTH {
+		return Err(Error::AccessOverflowed)
 	}
+	Ok(parent.sub(sub))
 }
 
 /// Basic partial values.
-- 
2.43.0

