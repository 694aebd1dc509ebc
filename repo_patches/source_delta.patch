From 4efa4292adf75b31049f5286cac8ce1e743ae0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 01/15] fix: memory models with the default size could not be
 created or dumped

---
 cocotbext/axi/memory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..b4f24e0 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,8 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        # len() is limited to sys.maxsize
+        self.size = self.mem.size if isinstance(self.mem, SparseMemory) else len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
@@ -92,10 +93,10 @@ class Memory:
         return self.read_qwords(address, 1, byteorder)[0]
 
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        hexdump(self.mem[address:address+length], prefix=prefix, offset=address)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        return hexdump_lines(self.mem[address:address+length], prefix=prefix, offset=address)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        return hexdump_str(self.mem[address:address+length], prefix=prefix, offset=address)
-- 
2.43.0


From 6bd6b165ed27e101a6106142491f516557f69d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 02/15] fix: read_byte failed on regions returning bytes

---
 cocotbext/axi/address_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..ea99c53 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
-- 
2.43.0


From 2001fbe694eb3f1c6c9c4d365088f137a598f580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 03/15] fix: PeripheralRegion performed accesses to non-async
 objects twice

---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index ea99c53..5591e58 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -22,6 +22,7 @@ THE SOFTWARE.
 
 """
 
+import inspect
 import mmap
 
 from .buddy_allocator import BuddyAllocator
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        data = self.obj.read(address, length, **kwargs)
+        if inspect.isawaitable(data):
+            data = await data
+        return data
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        res = self.obj.write(address, data, **kwargs)
+        if inspect.isawaitable(res):
+            await res
 
 
 class AddressSpace(Region):
-- 
2.43.0


From 49ce279f1f37ffcab3616839fc6b3a868a43efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 04/15] fix: BuddyAllocator handed out blocks beyond its size

---
 cocotbext/axi/buddy_allocator.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..98ab4d9 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -36,31 +36,32 @@ class BuddyAllocator:
         if size < 1 or size > self.size:
             raise ValueError("size out of range")
 
+        # when the overall size is not a power of two, blocks can extend past the end
+        limit = self.size - size
+
         size = max(size, self.min_alloc)
 
         bucket = (size-1).bit_length()
         orig_bucket = bucket
 
         while bucket < len(self.free_lists):
-            if not self.free_lists[bucket]:
-                # find free block
+            # find free block
+            block = next((x for x in self.free_lists[bucket] if x <= limit), None)
+
+            if block is None:
                 bucket += 1
                 continue
 
+            self.free_lists[bucket].remove(block)
+
             while bucket > orig_bucket:
                 # split block
-                block = self.free_lists[bucket].pop(0)
                 bucket -= 1
-                self.free_lists[bucket].append(block)
                 self.free_lists[bucket].append(block+2**bucket)
 
-            if self.free_lists[bucket]:
-                # allocate
-                block = self.free_lists[bucket].pop(0)
-                self.allocations[block] = bucket
-                return block
-
-            break
+            # allocate
+            self.allocations[block] = bucket
+            return block
 
         raise Exception("out of memory")
 
-- 
2.43.0


From bf81ab84f85b1c27ba2371e809c96d0d4f4cb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 05/15] fix: AXI master accepted an ID one past the width of
 the ID signal

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..f1d3a89 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -299,7 +299,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -734,7 +734,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -791,7 +791,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From 377b7170fc078fd4c62f0657810df9ff0bbd18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 06/15] fix: APB master cleared the result of the last
 completed command on reset

---
 cocotbext/axi/apb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..6faa6ae 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -454,7 +454,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From 073cafa617833ece01922f62114e7509992ec9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 07/15] fix: setting the target of an AXI or AXI lite slave had
 no effect

---
 cocotbext/axi/axi_slave.py  | 9 +++++++++
 cocotbext/axi/axil_slave.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 5f10107..9cd6147 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -345,3 +345,12 @@ class AxiSlave:
 
         self.write_if = AxiSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 3214d31..e7569ac 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -257,3 +257,12 @@ class AxiLiteSlave:
 
         self.write_if = AxiLiteSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiLiteSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
-- 
2.43.0


From 3debf6e75ea60ddd218dda939e8348f2b1aa6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 08/15] fix: clearing a full sink left ready deasserted

---
 cocotbext/axi/axis.py   | 1 +
 cocotbext/axi/stream.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..8583779 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -362,6 +362,7 @@ class AxiStreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
 
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..36a9183 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -148,6 +148,7 @@ class StreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
 
     def _handle_reset(self, state):
         if state:
-- 
2.43.0


From 8d61543c3fc17c076ff0620070598fef55bca084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 09/15] fix: write_byte failed on memories and regions backed
 by mmap

---
 cocotbext/axi/address_space.py | 2 +-
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 5591e58..b324725 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -118,7 +118,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index b4f24e0..9034115 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -56,7 +56,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From 4801cda3cbcb5bfc7b700ebe09f244e954b68ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:58 +0000
Subject: [PATCH 10/15] fix: operations started with init_read/init_write were
 not queued or counted as outstanding until later

---
 cocotbext/axi/apb.py         | 16 ++++++++--------
 cocotbext/axi/axi_master.py  | 25 +++++++++++--------------
 cocotbext/axi/axil_master.py | 16 ++++++++--------
 3 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 6faa6ae..2739dbb 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,10 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))
 
         return event
 
@@ -236,7 +239,10 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))
 
         return event
 
@@ -270,9 +276,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +299,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index f1d3a89..54fcc95 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -342,8 +342,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -422,11 +426,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -765,8 +764,11 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -833,11 +835,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..0ab3948 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,10 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.write_command_queue.put_nowait(AxiLiteWriteCmd(address, data, prot, event))
 
         return event
 
@@ -204,9 +207,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -422,7 +422,10 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.read_command_queue.put_nowait(AxiLiteReadCmd(address, length, prot, event))
 
         return event
 
@@ -456,9 +459,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
-- 
2.43.0


From 1c0598345af4f318e11915a98f89669b48449040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 11/15] fix: masters accepted side-band values that do not fit
 their signals

---
 cocotbext/axi/apb.py         | 12 ++++++++++++
 cocotbext/axi/axi_master.py  | 26 ++++++++++++++++++++++++++
 cocotbext/axi/axil_master.py | 12 ++++++++++++
 3 files changed, 50 insertions(+)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 2739dbb..4e34e3c 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -211,6 +211,9 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("pprot sideband signal value specified, but signal is not connected")
 
+        if self.pprot_present and not 0 <= prot < 2**len(self.bus.pprot):
+            raise ValueError("pprot sideband signal value out of range")
+
         data = bytes(data)
 
         self.in_flight_operations += 1
@@ -239,6 +242,9 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
+        if self.pprot_present and not 0 <= prot < 2**len(self.bus.pprot):
+            raise ValueError("pprot sideband signal value out of range")
+
         self.in_flight_operations += 1
         self._idle.clear()
 
@@ -266,6 +272,9 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("pprot sideband signal value specified, but signal is not connected")
 
+        if self.pprot_present and not 0 <= prot < 2**len(self.bus.pprot):
+            raise ValueError("pprot sideband signal value out of range")
+
         event = Event()
         data = bytes(data)
 
@@ -289,6 +298,9 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
+        if self.pprot_present and not 0 <= prot < 2**len(self.bus.pprot):
+            raise ValueError("pprot sideband signal value out of range")
+
         event = Event()
 
         self.in_flight_operations += 1
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 54fcc95..8995af0 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -330,6 +330,10 @@ class AxiMasterWrite(Region, Reset):
         if not self.awuser_present and user != 0:
             raise ValueError("awuser sideband signal value specified, but signal is not connected")
 
+        for name, val in (("awcache", cache), ("awprot", prot), ("awqos", qos), ("awregion", region), ("awuser", user)):
+            if hasattr(self.bus.aw, name) and not 0 <= val < 2**len(getattr(self.bus.aw, name)):
+                raise ValueError(f"{name} sideband signal value out of range")
+
         if not self.wuser_present and wuser != 0:
             raise ValueError("wuser sideband signal value specified, but signal is not connected")
 
@@ -340,6 +344,11 @@ class AxiMasterWrite(Region, Reset):
         else:
             wuser = list(wuser)
 
+        if self.wuser_present:
+            for val in ([wuser] if isinstance(wuser, int) else wuser):
+                if not 0 <= val < 2**len(self.bus.w.wuser):
+                    raise ValueError("wuser sideband signal value out of range")
+
         data = bytes(data)
 
         self.in_flight_operations += 1
@@ -403,6 +412,10 @@ class AxiMasterWrite(Region, Reset):
         if not self.awuser_present and user != 0:
             raise ValueError("awuser sideband signal value specified, but signal is not connected")
 
+        for name, val in (("awcache", cache), ("awprot", prot), ("awqos", qos), ("awregion", region), ("awuser", user)):
+            if hasattr(self.bus.aw, name) and not 0 <= val < 2**len(getattr(self.bus.aw, name)):
+                raise ValueError(f"{name} sideband signal value out of range")
+
         if not self.wuser_present and wuser != 0:
             raise ValueError("wuser sideband signal value specified, but signal is not connected")
 
@@ -413,6 +426,11 @@ class AxiMasterWrite(Region, Reset):
         else:
             wuser = list(wuser)
 
+        if self.wuser_present:
+            for val in ([wuser] if isinstance(wuser, int) else wuser):
+                if not 0 <= val < 2**len(self.bus.w.wuser):
+                    raise ValueError("wuser sideband signal value out of range")
+
         event = Event()
         data = bytes(data)
 
@@ -764,6 +782,10 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
+        for name, val in (("arcache", cache), ("arprot", prot), ("arqos", qos), ("arregion", region), ("aruser", user)):
+            if hasattr(self.bus.ar, name) and not 0 <= val < 2**len(getattr(self.bus.ar, name)):
+                raise ValueError(f"{name} sideband signal value out of range")
+
         self.in_flight_operations += 1
         self._idle.clear()
 
@@ -824,6 +846,10 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
+        for name, val in (("arcache", cache), ("arprot", prot), ("arqos", qos), ("arregion", region), ("aruser", user)):
+            if hasattr(self.bus.ar, name) and not 0 <= val < 2**len(getattr(self.bus.ar, name)):
+                raise ValueError(f"{name} sideband signal value out of range")
+
         event = Event()
 
         self.in_flight_operations += 1
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index 0ab3948..e57aeef 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -168,6 +168,9 @@ class AxiLiteMasterWrite(Region, Reset):
         if not self.awprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("awprot sideband signal value specified, but signal is not connected")
 
+        if self.awprot_present and not 0 <= prot < 2**len(self.bus.aw.awprot):
+            raise ValueError("awprot sideband signal value out of range")
+
         data = bytes(data)
 
         self.in_flight_operations += 1
@@ -197,6 +200,9 @@ class AxiLiteMasterWrite(Region, Reset):
         if not self.awprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("awprot sideband signal value specified, but signal is not connected")
 
+        if self.awprot_present and not 0 <= prot < 2**len(self.bus.aw.awprot):
+            raise ValueError("awprot sideband signal value out of range")
+
         event = Event()
         data = bytes(data)
 
@@ -422,6 +428,9 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
+        if self.arprot_present and not 0 <= prot < 2**len(self.bus.ar.arprot):
+            raise ValueError("arprot sideband signal value out of range")
+
         self.in_flight_operations += 1
         self._idle.clear()
 
@@ -449,6 +458,9 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
+        if self.arprot_present and not 0 <= prot < 2**len(self.bus.ar.arprot):
+            raise ValueError("arprot sideband signal value out of range")
+
         event = Event()
 
         self.in_flight_operations += 1
-- 
2.43.0


From 544fd3d61fee1614a476f6c154e9104d01600377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 12/15] fix: AXI master reported EXOKAY for an operation with a
 failed burst or beat

---
 cocotbext/axi/axi_master.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 8995af0..0ce555f 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -624,7 +624,7 @@ class AxiMasterWrite(Region, Reset):
             burst_resp = AxiResp(int(getattr(b, 'bresp', AxiResp.OKAY)))
             burst_user = int(getattr(b, 'buser', 0))
 
-            if burst_resp != AxiResp.OKAY:
+            if burst_resp not in (AxiResp.OKAY, AxiResp.EXOKAY) or resp == AxiResp.OKAY:
                 resp = burst_resp
 
             if burst_user is not None:
@@ -1016,7 +1016,7 @@ class AxiMasterRead(Region, Reset):
                 cycle_resp = AxiResp(int(getattr(r, "rresp", AxiResp.OKAY)))
                 cycle_user = int(getattr(r, "ruser", 0))
 
-                if cycle_resp != AxiResp.OKAY:
+                if cycle_resp not in (AxiResp.OKAY, AxiResp.EXOKAY) or resp == AxiResp.OKAY:
                     resp = cycle_resp
 
                 if cycle_user is not None:
-- 
2.43.0


From a38922f637d35dbd436be7f66dea5e64d97210c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:52 +0000
Subject: [PATCH 13/15] fix: idle() and wait() of the combined AXI masters
 failed on 64-bit address buses

---
 cocotbext/axi/axi_master.py  | 2 +-
 cocotbext/axi/axil_master.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 0ce555f..5b00e2d 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -1077,7 +1077,7 @@ class AxiMaster(Region):
         return self.write_if.init_write(address, data, awid, burst, size, lock, cache, prot, qos, region, user, wuser, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index e57aeef..fe8d7aa 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -608,7 +608,7 @@ class AxiLiteMaster(Region):
         return self.write_if.init_write(address, data, prot, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
-- 
2.43.0


From efe126df1f7a9872dbade0d1ae8ae3193748cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:21 +0000
Subject: [PATCH 14/15] fix: APB master converted undefined prdata on writes

---
 cocotbext/axi/apb.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 4e34e3c..9e8332c 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -437,20 +437,15 @@ class ApbMaster(ApbPause, Region, Reset):
 
                 self.bus.penable.value = False
 
-                cycle_data = int(self.bus.prdata.value)
                 if self.pslverr_present and int(self.bus.pslverr.value):
                     resp = AxiResp.SLVERR
 
-                start = 0
-                stop = self.byte_lanes
-
-                if k == 0:
-                    start = start_offset
-                if k == cycles-1:
-                    stop = end_offset
+                # prdata is only defined for reads
+                if not pwrite:
+                    cycle_data = int(self.bus.prdata.value)
 
-                for j in range(start, stop):
-                    read_data.append((cycle_data >> j*8) & 0xff)
+                    for j in range(start, stop):
+                        read_data.append((cycle_data >> j*8) & 0xff)
 
                 self.bus.psel.value = False
 
-- 
2.43.0


From 280419d0fabde85f042d32b003afdb75f94823b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:21 +0000
Subject: [PATCH 15/15] fix: APB master lost a command when reset came right
 after it was taken from the queue

---
 cocotbext/axi/apb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 9e8332c..95f939e 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -350,11 +350,11 @@ class ApbMaster(ApbPause, Region, Reset):
 
         while True:
             if self.command_queue.empty():
-                cmd = await self.command_queue.get()
+                self.current_command = await self.command_queue.get()
                 await clock_edge_event
             else:
-                cmd = self.command_queue.get_nowait()
-            self.current_command = cmd
+                self.current_command = self.command_queue.get_nowait()
+            cmd = self.current_command
 
             length = 0
             pwrite = False
-- 
2.43.0

