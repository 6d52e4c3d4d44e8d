From 623286059e26a03a0bf76a21d3ed4f1b180d8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 1/3] fix: mark every word of a multi-word write dirty

With 64- or 128-bit data, a write of 8 or 16 bytes (or len 0) set the dirty
bit of its first word only. The other words were lost when the line was
evicted, flushed, handed to memory for an AMO, or refilled after an INV.
---
 blocking_cache/units/UpdateTagArrayUnit.py | 25 +++++------
 blocking_cache/units/arithmetics.py        | 50 ++++++++++++++++++----
 2 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/blocking_cache/units/UpdateTagArrayUnit.py b/blocking_cache/units/UpdateTagArrayUnit.py
index d81bd35..4ee1bbd 100644
--- a/blocking_cache/units/UpdateTagArrayUnit.py
+++ b/blocking_cache/units/UpdateTagArrayUnit.py
@@ -11,6 +11,7 @@ Date:   17 March 2020
 from pymtl3 import *
 
 from ..cache_constants import *
+from .arithmetics      import WrittenWords
 
 class UpdateTagArrayUnit( Component ):
   """
@@ -25,6 +26,11 @@ class UpdateTagArrayUnit( Component ):
     s.wr_len      = InPort (p.bitwidth_len)       # for double-word CIFER hack
     s.out         = OutPort(p.StructTagArray)
 
+    # Dirty bits of the words being written
+    s.wr_words = m = WrittenWords( p )
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     @update
     def new_tag_array_entry_logic():
       s.out.tag @= s.old_entries[s.way].tag
@@ -32,29 +38,18 @@ class UpdateTagArrayUnit( Component ):
       s.out.dty @= s.old_entries[s.way].dty
 
       if s.cmd == UpdateTagArrayUnit_CMD_WR_REFILL:
-        # Refill on a write, mark the word being written as dirty, the
+        # Refill on a write, mark the words being written as dirty, the
         # rest is clean
         s.out.val @= CACHE_LINE_STATE_VALID
-        s.out.dty @= 0 | s.refill_dty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.wr_words.out | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_RD_REFILL:
         # Refill for a read, simply mark valid bit and clear the dirty
         # bits
         s.out.val @= CACHE_LINE_STATE_VALID
         s.out.dty @= 0 | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_WR_HIT:
-        # Hit a clean word, mark the word as dirty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        # Hit a clean word, mark the words being written as dirty
+        s.out.dty @= s.old_entries[s.way].dty | s.wr_words.out
       elif s.cmd == UpdateTagArrayUnit_CMD_CLEAR:
         # Clear the entire entry
         s.out.tag @= 0
diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index d3266ca..325b732 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -230,6 +230,38 @@ class WriteBitEnGen( Component ):
     msg = f'o[{s.out}] '
     return msg
 
+class WrittenWords( Component ):
+  """
+  Decodes which words of the cache line a write touches
+
+  A full-width access (len 0) covers every word of the data field, and an
+  8-byte access covers two words. Everything else stays within one word.
+  """
+  def construct(s, p):
+    s.offset = InPort(p.bitwidth_offset)
+    s.len_   = InPort(p.bitwidth_len)
+    s.out    = OutPort(p.bitwidth_dirty)
+
+    s.words   = Wire(p.bitwidth_dirty)
+    all_words = 2**( p.bitwidth_data // 32 ) - 1
+
+    @update
+    def words_logic():
+      if s.len_ == 0:
+        s.words @= all_words
+      elif s.len_ == 3:
+        # moyang: this is a hack for CIFER project. When len == 3, we
+        # zero-extend the 32-bit word to a 64-bit double word, so we need to
+        # set the dirty bits of two words
+        s.words @= 0b11
+      elif s.len_ == trunc(Bits32(8), p.bitwidth_len):
+        # truncated to 0 if 64 bit data
+        s.words @= 0b11
+      else:
+        s.words @= 1
+
+    s.out //= lambda: s.words << zext(s.offset[2 : p.bitwidth_offset], p.bitwidth_dirty)
+
 class TagArrayRDataProcessUnit( Component ):
   """
   Processes all incoming data from the tag array(s).
@@ -250,19 +282,19 @@ class TagArrayRDataProcessUnit( Component ):
     s.line_dirty = OutPort(p.associativity) # If the line is dirty
     s.tag_entires= [ OutPort(p.StructTagArray) for _ in range(p.associativity) ]
 
+    # Words that a write would touch
+    s.wr_words = m = WrittenWords( p )
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     # word dirty logic
     @update
     def word_dirty_logic():
       for i in range(p.associativity):
-        # moyang: this is a CIFER hack. When writing a double word (zero
-        # extending a 32-bit word to a 64-bit double word), we only consider the
-        # double word dirty if both 32-bit words are dirty, because we need to
-        # stall the pipeline to set the two dirty bits if any of them is not
-        # already dirty.
-        if s.wr_len == 3:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ] & s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] + 1 ]
-        else:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ]
+        # When writing more than one word, we only consider the words dirty if
+        # all of them are dirty, because we need to stall the pipeline to set
+        # the dirty bits if any of them is not already dirty.
+        s.word_dirty[i] @= ( s.tag_array[i].dty & s.wr_words.out ) == s.wr_words.out
 
     @update
     def line_dirty_logic():
-- 
2.43.0


From d23efb3c2308a090ecc6b8d81d784f06e8e4747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 2/3] fix: ModelCache.amo: look memory up by unsigned line
 address

The line address was a Bits key in the membership test and a signed integer
in the lookup, so an AMO to a line not touched before raised KeyError and
one at or above 0x80000000 used the wrong line.
---
 blocking_cache/BlockingCacheFL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 1a3cfb5..488699a 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -283,17 +283,17 @@ class ModelCache:
   def amo(self, addr, value, opaque, len_, func):
     # AMO operations are on the word level only
     self.tracker.amo_req(addr)
-    new_addr = addr[self.offset_end:32]
+    new_addr = int(addr[self.offset_end:32])
     offset = int(addr[self.offset_start:self.offset_end])
     if new_addr not in self.mem:
       self.mem[new_addr] = Bits(self.mem_bitwidth_data, 0)
-    ret = self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8]
+    ret = self.mem[new_addr][offset * 8 : (offset + 4) * 8]
     
     value = trunc(value, 32)
     amo_out = AMO_FUNS[ int(func) ]( ret, value )
     ret = zext( ret, self.cache_bitwidth_data )
     value = zext( value, self.cache_bitwidth_data )
-    self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8] = amo_out
+    self.mem[new_addr][offset * 8 : (offset + 4) * 8] = amo_out
     
     self.transactions.append(req (self.CacheReqType, func, opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,func, opaque, 0,    len_, ret))
-- 
2.43.0


From b4f4b827f312966a7d354726e2b7b3861e9c3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 3/3] fix: tell caches of different opaque width apart when
 naming components

Two caches in one design that differ only in the width of the opaque field
got the same names for their datapath and MSHR modules, so the translated
Verilog used one definition, of the wrong width, for both.
---
 blocking_cache/CacheDerivedParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocking_cache/CacheDerivedParams.py b/blocking_cache/CacheDerivedParams.py
index f37fa79..756cd9f 100644
--- a/blocking_cache/CacheDerivedParams.py
+++ b/blocking_cache/CacheDerivedParams.py
@@ -19,7 +19,7 @@ class CacheDerivedParams:
 
   def __str__( self ):
     return f"BlockingCache_{self.num_bytes}_{self.bitwidth_cacheline}_{self.bitwidth_addr}_"\
-           f"{self.bitwidth_data}_{self.associativity}"
+           f"{self.bitwidth_data}_{self.associativity}_{self.bitwidth_opaque}"
 
   def __init__( self, CacheReqType, CacheRespType, MemReqType, MemRespType,
                 num_bytes, associativity ):
-- 
2.43.0

