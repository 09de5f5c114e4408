From c55a74b12939b8981936d0511afd5297f8bd99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 1/4] fix: reject headers with fewer bytes than the header
 struct

---
 atoparser/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 5b6f47c..228a689 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -145,11 +145,13 @@ def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header
     # Read the header directly into the struct, there is no padding to consume or add.
     # Use default Header as the baseline in order to check the version. It can be transferred without re-reading.
     header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
-    raw_file.readinto(header)
+    header_length = raw_file.readinto(header)
 
     if header.magic != MAGIC:
         msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
         raise ValueError(msg)
+    if header_length < ctypes.sizeof(header):
+        raise ValueError(f"File does not contain a complete header: {header_length} bytes")
 
     header_version = header.semantic_version
     if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
-- 
2.43.0


From 5830251772a2288ffe13783e581586128918f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 2/4] fix: read versions without own structs as the newest
 layout

---
 atoparser/structs/shared.py | 4 ++--
 atoparser/utils.py          | 7 ++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/atoparser/structs/shared.py b/atoparser/structs/shared.py
index 91dda02..e1a646f 100644
--- a/atoparser/structs/shared.py
+++ b/atoparser/structs/shared.py
@@ -49,11 +49,11 @@ class HeaderMixin:
             ("Record", self.rawreclen, ctypes.sizeof(self.Record)),
             ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),
         ]
-        if self.major_version >= 2 and self.minor_version >= 3:
+        if hasattr(self, "tstatlen"):
             sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
         else:
             sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
-        if self.major_version >= 2 and self.minor_version >= 11:
+        if self.CStat:
             sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
         if any(size[1] != size[2] for size in sizes):
             raise ValueError(
diff --git a/atoparser/utils.py b/atoparser/utils.py
index 228a689..2e8a6b4 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -101,9 +101,6 @@ def generate_statistics(
         header = get_header(raw_file)
 
     try:
-        header_version = header.semantic_version
-        major, minor = header_version.split(".")[:2]
-        major, minor = int(major), int(minor)
         for _ in range(max_samples):
             # Read the repeating structured information until the end of the file.
             # Atop log files consist of the following after the header, repeated until the end:
@@ -117,7 +114,7 @@ def generate_statistics(
                 break
             sstat = get_sstat(raw_file, header, record)
             tstats = get_tstat(raw_file, header, record)
-            if major >= 2 and minor >= 11:
+            if header.CStat:
                 cgroups = get_cstat(raw_file, header, record)
             else:
                 cgroups = []
@@ -236,7 +233,7 @@ def get_tstat(
     decompressed = zlib.decompress(buffer)
 
     record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
-    tstatlen = header.tstatlen if header.major_version >= 2 and header.minor_version >= 3 else header.pstatlen
+    tstatlen = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
     tstats = []
     for index in range(record_count):
         # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:
-- 
2.43.0


From 7297071d31b67359cab328e70942fccb12394d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 3/4] fix: ignore undecodable bytes in parseables as in full
 output

---
 atoparser/parsers/atop_1_26.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/atoparser/parsers/atop_1_26.py b/atoparser/parsers/atop_1_26.py
index ef8f33b..c062050 100644
--- a/atoparser/parsers/atop_1_26.py
+++ b/atoparser/parsers/atop_1_26.py
@@ -96,7 +96,7 @@ def parse_DSK(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": disk.name.decode(),
+            "name": disk.name.decode(errors="ignore"),
             "io_ms": disk.io_ms,
             "reads": disk.nread,
             "read_sectors": disk.nrsect,
@@ -120,7 +120,7 @@ def parse_LVM(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": lvm.name.decode(),
+            "name": lvm.name.decode(errors="ignore"),
             "io_ms": lvm.io_ms,
             "reads": lvm.nread,
             "read_sectors": lvm.nrsect,
@@ -144,7 +144,7 @@ def parse_MDD(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": mdd.name.decode(),
+            "name": mdd.name.decode(errors="ignore"),
             "io_ms": mdd.io_ms,
             "reads": mdd.nread,
             "read_sectors": mdd.nrsect,
@@ -189,7 +189,7 @@ def parse_NETL(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": interface.name.decode(),
+            "name": interface.name.decode(errors="ignore"),
             "pkt_received": interface.rpack,
             "byte_received": interface.rbyte,
             "pkt_transmitted": interface.spack,
@@ -254,8 +254,8 @@ def parse_PRC(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "ticks": header.hertz,
             "user_consumption": stat.cpu.utime,
             "system_consumption": stat.cpu.stime,
@@ -281,8 +281,8 @@ def parse_PRD(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n",
             "reads": stat.dsk.rio,
@@ -306,15 +306,15 @@ def parse_PRG(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "real_uid": stat.gen.ruid,
             "real_gid": stat.gen.rgid,
             "tgid": stat.gen.pid,  # This is a duplicate of pid per atop documentation.
             "threads": stat.gen.nthr,
             "exit_code": stat.gen.excode,
             "start_time": stat.gen.btime,
-            "cmd": stat.gen.cmdline.decode(),
+            "cmd": stat.gen.cmdline.decode(errors="ignore"),
             "ppid": stat.gen.ppid,
             "running_threads": stat.gen.nthrrun,
             "sleeping_threads": stat.gen.nthrslpi,
@@ -342,8 +342,8 @@ def parse_PRM(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "page": header.pagesize,
             "vsize": stat.mem.vmem * 1024,
             "rsize": stat.mem.rmem * 1024,
@@ -368,8 +368,8 @@ def parse_PRN(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "tcp_transmitted": stat.net.tcpsnd,
             "tcp_transmitted_size": stat.net.tcpssz,
-- 
2.43.0


From 3e926af23e927879a3ac4d4b001746eb12b15664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 4/4] fix: read samples without cgroup data instead of failing
 decompression

---
 atoparser/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 2e8a6b4..d28e677 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -265,9 +265,9 @@ def get_cstat(
     # Read the requested length instead of the length of the struct.
     # The data is compressed and must be decompressed before it will fill the final list of structs.
     buffer_cstats = raw_file.read(record.ccomplen)
-    decompressed_cstats = zlib.decompress(buffer_cstats)
+    decompressed_cstats = zlib.decompress(buffer_cstats) if record.ccomplen else b""
     buffer_pidlist = raw_file.read(record.icomplen)
-    decompressed_pidlist = zlib.decompress(buffer_pidlist)
+    decompressed_pidlist = zlib.decompress(buffer_pidlist) if record.icomplen else b""
 
     cgroups = []
     cstat_start = 0
-- 
2.43.0

