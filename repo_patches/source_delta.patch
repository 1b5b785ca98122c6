From dc1fbe2d72fae62218a12ad4ccff885ecf233a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH] fix: count an added value before it becomes visible, so that
 Len never goes below what is present

---
 gen_func.go        | 4 +++-
 gen_int.go         | 4 +++-
 gen_int32.go       | 4 +++-
 gen_int32desc.go   | 4 +++-
 gen_int64.go       | 4 +++-
 gen_int64desc.go   | 4 +++-
 gen_intdesc.go     | 4 +++-
 gen_ordered.go     | 4 +++-
 gen_ordereddesc.go | 4 +++-
 gen_string.go      | 4 +++-
 gen_stringdesc.go  | 4 +++-
 gen_uint.go        | 4 +++-
 gen_uint32.go      | 4 +++-
 gen_uint32desc.go  | 4 +++-
 gen_uint64.go      | 4 +++-
 gen_uint64desc.go  | 4 +++-
 gen_uintdesc.go    | 4 +++-
 skipset.tpl        | 4 +++-
 18 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/gen_func.go b/gen_func.go
index 1c87d41..d949e0d 100644
--- a/gen_func.go
+++ b/gen_func.go
@@ -156,9 +156,11 @@ func (s *FuncSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockfunc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int.go b/gen_int.go
index 1c0f06d..6050416 100644
--- a/gen_int.go
+++ b/gen_int.go
@@ -154,9 +154,11 @@ func (s *IntSet) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int32.go b/gen_int32.go
index d35b998..d2a0eaa 100644
--- a/gen_int32.go
+++ b/gen_int32.go
@@ -154,9 +154,11 @@ func (s *Int32Set) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int32desc.go b/gen_int32desc.go
index e3b3187..13763f4 100644
--- a/gen_int32desc.go
+++ b/gen_int32desc.go
@@ -154,9 +154,11 @@ func (s *Int32SetDesc) Add(value int32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int64.go b/gen_int64.go
index 2fb0530..aee093b 100644
--- a/gen_int64.go
+++ b/gen_int64.go
@@ -154,9 +154,11 @@ func (s *Int64Set) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_int64desc.go b/gen_int64desc.go
index 7bd45e6..e1b5847 100644
--- a/gen_int64desc.go
+++ b/gen_int64desc.go
@@ -154,9 +154,11 @@ func (s *Int64SetDesc) Add(value int64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_intdesc.go b/gen_intdesc.go
index 2add73e..e27c8b3 100644
--- a/gen_intdesc.go
+++ b/gen_intdesc.go
@@ -154,9 +154,11 @@ func (s *IntSetDesc) Add(value int) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_ordered.go b/gen_ordered.go
index 05d7644..d77068c 100644
--- a/gen_ordered.go
+++ b/gen_ordered.go
@@ -154,9 +154,11 @@ func (s *OrderedSet[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockordered(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_ordereddesc.go b/gen_ordereddesc.go
index 7408ec4..c37ebf4 100644
--- a/gen_ordereddesc.go
+++ b/gen_ordereddesc.go
@@ -154,9 +154,11 @@ func (s *OrderedSetDesc[T]) Add(value T) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockorderedDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_string.go b/gen_string.go
index b0eccb1..c347a5b 100644
--- a/gen_string.go
+++ b/gen_string.go
@@ -154,9 +154,11 @@ func (s *StringSet) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstring(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_stringdesc.go b/gen_stringdesc.go
index 139f433..52d08f1 100644
--- a/gen_stringdesc.go
+++ b/gen_stringdesc.go
@@ -154,9 +154,11 @@ func (s *StringSetDesc) Add(value string) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockstringDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint.go b/gen_uint.go
index 23e689a..767f77b 100644
--- a/gen_uint.go
+++ b/gen_uint.go
@@ -154,9 +154,11 @@ func (s *UintSet) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint32.go b/gen_uint32.go
index b3f49ed..1dc973e 100644
--- a/gen_uint32.go
+++ b/gen_uint32.go
@@ -154,9 +154,11 @@ func (s *Uint32Set) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint32desc.go b/gen_uint32desc.go
index fdb0151..c138389 100644
--- a/gen_uint32desc.go
+++ b/gen_uint32desc.go
@@ -154,9 +154,11 @@ func (s *Uint32SetDesc) Add(value uint32) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint32Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint64.go b/gen_uint64.go
index c0cbc8f..6a7b2b9 100644
--- a/gen_uint64.go
+++ b/gen_uint64.go
@@ -154,9 +154,11 @@ func (s *Uint64Set) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uint64desc.go b/gen_uint64desc.go
index bf66e05..49cf0a5 100644
--- a/gen_uint64desc.go
+++ b/gen_uint64desc.go
@@ -154,9 +154,11 @@ func (s *Uint64SetDesc) Add(value uint64) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuint64Desc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/gen_uintdesc.go b/gen_uintdesc.go
index 430a8fb..54ea34a 100644
--- a/gen_uintdesc.go
+++ b/gen_uintdesc.go
@@ -154,9 +154,11 @@ func (s *UintSetDesc) Add(value uint) bool {
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlockuintDesc(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
diff --git a/skipset.tpl b/skipset.tpl
index 0d1f59c..7434cf7 100644
--- a/skipset.tpl
+++ b/skipset.tpl
@@ -153,9 +153,11 @@ func (s *{{.StructPrefix}}Set{{.StructSuffix}}{{.TypeArgument}}) Add(value {{.Ty
 			nn.storeNext(layer, succs[layer])
 			preds[layer].atomicStoreNext(layer, nn)
 		}
+		// Count the value before it becomes visible, a concurrent Remove of it may
+		// otherwise decrement the length first and make Len negative.
+		atomic.AddInt64(&s.length, 1)
 		nn.flags.SetTrue(fullyLinked)
 		unlock{{.Name}}(preds, highestLocked)
-		atomic.AddInt64(&s.length, 1)
 		return true
 	}
 }
-- 
2.43.0

