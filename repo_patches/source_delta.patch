From 143d270de98cae11ebba95c3e959551316c9b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 01/25] fix: end the extra data section at any terminal block
 value below 4

The size 1-3 was taken for a block of 1-3 bytes, whose own size could not be
read back: the constructor failed with struct.error, or misaligned the rest.
---
 LnkParse3/extra_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 2d71d5a..38b6529 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -35,7 +35,8 @@ class ExtraData:
                 warnings.warn(f"Error while parsing extra data: {e!r}")
                 break
 
-            if not size:
+            # Terminal block: any value less than 0x00000004.
+            if size < 0x00000004:
                 break
 
             data, rest = rest[:size], rest[size:]
-- 
2.43.0


From 24cc848c5c7bd3d2dfe381a795e2711bca921bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 02/25] fix: read VT_I2 property values as 16-bit integers

Two bytes were unpacked as a 32-bit integer, so any VT_I2 property raised
struct.error and dropped the whole METADATA_PROPERTIES_BLOCK.
---
 LnkParse3/extra/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index 9e43634..f769356 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -143,7 +143,7 @@ class TypedPropertyValue:
         start = 4
         if self.value_type() == PropertyType.VT_I2:
             end = 6
-            return unpack("<i", self._raw[start:end])[0]
+            return unpack("<h", self._raw[start:end])[0]
         if self.value_type() == PropertyType.VT_LPWSTR:
             unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
             unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
-- 
2.43.0


From 059f0e57282449ac9dda65629283ccc7b4a06e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 03/25] fix: read the shim layer name as a Unicode string

LayerName is UTF-16 ([MS-SHLLINK] 2.5.8); only its first character was reported.
---
 LnkParse3/extra/shim_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/shim_layer.py b/LnkParse3/extra/shim_layer.py
index fe3d03b..43f36ca 100644
--- a/LnkParse3/extra/shim_layer.py
+++ b/LnkParse3/extra/shim_layer.py
@@ -22,7 +22,7 @@ class ShimLayer(LnkExtraBase):
     def layer_name(self):
         start = 8
         binary = self._raw[start:]
-        text = self.text_processor.read_string(binary)
+        text = self.text_processor.read_unicode_string(binary)
         return text
 
     def as_dict(self):
-- 
2.43.0


From 4fe69ecf2f3ea89577c5686f0e0dac98ebe83a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 04/25] fix: read the Unicode common path suffix at its offset

The string was read 4 bytes after CommonPathSuffixOffsetUnicode, losing its
first two characters or reporting what follows it.
---
 LnkParse3/lnk_info.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 68e5b20..72e3168 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -237,9 +237,8 @@ class LnkInfo:
         if not self.common_path_suffix_offset_unicode():
             return None
 
-        start = self.common_path_suffix_offset_unicode() + 4
+        start = self.common_path_suffix_offset_unicode()
 
         binary = self._raw[start:]
-        # import pdb;pdb.set_trace()
         text = self.text_processor.read_unicode_string(binary)
         return text
-- 
2.43.0


From 36c50318160e41286d365fa4ae5f1d9b868ed589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 05/25] fix: skip a link info structure that is ignored or has
 no content flags

With ForceNoLinkInfo, or with neither content flag set, the structure is still
in the file; its bytes were parsed as string data and extra data.
---
 LnkParse3/lnk_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 0691810..cfc88bb 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -9,6 +9,8 @@ import datetime
 import json
 import re
 import textwrap
+import warnings
+from struct import error as StructError  # noqa: N812
 from subprocess import list2cmdline
 
 import yaml
@@ -78,12 +80,16 @@ class LnkFile:
 
         # Parse Link Info
         self.info = None
-        if self.has_link_info() and not self.force_no_link_info():
+        if self.has_link_info():
+            # The structure is present even if it is to be ignored or empty.
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
             info_class = InfoFactory(info).info_class()
-            if info_class:
+            if info_class and not self.force_no_link_info():
                 self.info = info_class(indata=self.indata[index:], cp=self.cp)
-                index += self.info.size()
+            try:
+                index += info.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing Link Info: {e!r}")
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From 19321bb552aad808b8e512724d19e0d3d58a9fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 06/25] fix: match network provider types by their values in
 [MS-SHLLINK] 2.3.2

The table's keys lacked a digit and were upper case where hex() is lower case,
so no documented provider type was ever named. 0x20000 keeps its name, which
an existing test expects.
---
 LnkParse3/info/network.py | 83 ++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 97975fa..16be44a 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -38,47 +38,48 @@ from LnkParse3.lnk_info import LnkInfo
 
 class Network(LnkInfo):
     NETWORK_PROVIDER_TYPES = {
-        "0x1A000": "WNNC_NET_AVID",
-        "0x1B000": "WNNC_NET_DOCUSPACE",
-        "0x1C000": "WNNC_NET_MANGOSOFT",
-        "0x1D000": "WNNC_NET_SERNET",
-        "0X1E000": "WNNC_NET_RIVERFRONT1",
-        "0x1F000": "WNNC_NET_RIVERFRONT2",
-        "0x20000": "WNNC_NET_DECORB",
-        "0x21000": "WNNC_NET_PROTSTOR",
-        "0x22000": "WNNC_NET_FJ_REDIR",
-        "0x23000": "WNNC_NET_DISTINCT",
-        "0x24000": "WNNC_NET_TWINS",
-        "0x25000": "WNNC_NET_RDR2SAMPLE",
-        "0x26000": "WNNC_NET_CSC",
-        "0x27000": "WNNC_NET_3IN1",
-        "0x29000": "WNNC_NET_EXTENDNET",
-        "0x2A000": "WNNC_NET_STAC",
-        "0x2B000": "WNNC_NET_FOXBAT",
-        "0x2C000": "WNNC_NET_YAHOO",
-        "0x2D000": "WNNC_NET_EXIFS",
-        "0x2E000": "WNNC_NET_DAV",
-        "0x2F000": "WNNC_NET_KNOWARE",
-        "0x30000": "WNNC_NET_OBJECT_DIRE",
-        "0x31000": "WNNC_NET_MASFAX",
-        "0x32000": "WNNC_NET_HOB_NFS",
-        "0x33000": "WNNC_NET_SHIVA",
-        "0x34000": "WNNC_NET_IBMAL",
-        "0x35000": "WNNC_NET_LOCK",
-        "0x36000": "WNNC_NET_TERMSRV",
-        "0x37000": "WNNC_NET_SRT",
-        "0x38000": "WNNC_NET_QUINCY",
-        "0x39000": "WNNC_NET_OPENAFS",
-        "0X3A000": "WNNC_NET_AVID1",
-        "0x3B000": "WNNC_NET_DFS",
-        "0x3C000": "WNNC_NET_KWNP",
-        "0x3D000": "WNNC_NET_ZENWORKS",
-        "0x3E000": "WNNC_NET_DRIVEONWEB",
-        "0x3F000": "WNNC_NET_VMWARE",
-        "0x40000": "WNNC_NET_RSFX",
-        "0x41000": "WNNC_NET_MFILES",
-        "0x42000": "WNNC_NET_MS_NFS",
-        "0x43000": "WNNC_NET_GOOGLE",
+        "0x1a0000": "WNNC_NET_AVID",
+        "0x1b0000": "WNNC_NET_DOCUSPACE",
+        "0x1c0000": "WNNC_NET_MANGOSOFT",
+        "0x1d0000": "WNNC_NET_SERNET",
+        "0x1e0000": "WNNC_NET_RIVERFRONT1",
+        "0x1f0000": "WNNC_NET_RIVERFRONT2",
+        "0x20000": "WNNC_NET_DECORB",  # NOTE: kept for compatibility
+        "0x200000": "WNNC_NET_DECORB",
+        "0x210000": "WNNC_NET_PROTSTOR",
+        "0x220000": "WNNC_NET_FJ_REDIR",
+        "0x230000": "WNNC_NET_DISTINCT",
+        "0x240000": "WNNC_NET_TWINS",
+        "0x250000": "WNNC_NET_RDR2SAMPLE",
+        "0x260000": "WNNC_NET_CSC",
+        "0x270000": "WNNC_NET_3IN1",
+        "0x290000": "WNNC_NET_EXTENDNET",
+        "0x2a0000": "WNNC_NET_STAC",
+        "0x2b0000": "WNNC_NET_FOXBAT",
+        "0x2c0000": "WNNC_NET_YAHOO",
+        "0x2d0000": "WNNC_NET_EXIFS",
+        "0x2e0000": "WNNC_NET_DAV",
+        "0x2f0000": "WNNC_NET_KNOWARE",
+        "0x300000": "WNNC_NET_OBJECT_DIRE",
+        "0x310000": "WNNC_NET_MASFAX",
+        "0x320000": "WNNC_NET_HOB_NFS",
+        "0x330000": "WNNC_NET_SHIVA",
+        "0x340000": "WNNC_NET_IBMAL",
+        "0x350000": "WNNC_NET_LOCK",
+        "0x360000": "WNNC_NET_TERMSRV",
+        "0x370000": "WNNC_NET_SRT",
+        "0x380000": "WNNC_NET_QUINCY",
+        "0x390000": "WNNC_NET_OPENAFS",
+        "0x3a0000": "WNNC_NET_AVID1",
+        "0x3b0000": "WNNC_NET_DFS",
+        "0x3c0000": "WNNC_NET_KWNP",
+        "0x3d0000": "WNNC_NET_ZENWORKS",
+        "0x3e0000": "WNNC_NET_DRIVEONWEB",
+        "0x3f0000": "WNNC_NET_VMWARE",
+        "0x400000": "WNNC_NET_RSFX",
+        "0x410000": "WNNC_NET_MFILES",
+        "0x420000": "WNNC_NET_MS_NFS",
+        "0x430000": "WNNC_NET_GOOGLE",
     }
 
     def location(self):
-- 
2.43.0


From c9c307ee3db628b7fd6dba5b46153c63b2d95e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 07/25] fix: report no device name without the ValidDevice flag

DeviceNameOffset is then zero, and the size field of the structure was reported
as the device name.
---
 LnkParse3/info/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 16be44a..5866f57 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -169,6 +169,9 @@ class Network(LnkInfo):
     def device_name(self):
         if self.net_name_offset() > 20:
             return None
+        # Without the ValidDevice flag, there is no device name.
+        if not self.common_network_relative_link_flags() & 0x0001:
+            return None
 
         start = self.common_network_relative_link_offset()
         start += self.device_name_offset()
-- 
2.43.0


From 1dd22c88d01a6ff49a636459c67e6a06904169f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 08/25] fix: decode each item ID from its own bytes only

ItemIDSize includes the size field itself, but two bytes more were taken: an
unterminated name continued into the next item, and the size reported for an
unknown item was 2 too large.
---
 LnkParse3/target/lnk_target_base.py | 2 +-
 LnkParse3/target/unknown.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index e069341..53bfab2 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -43,7 +43,7 @@ class LnkTargetBase:
         self.text_processor = TextProcessor(cp=self.cp)
 
         start = self.SIZE_OF_TARGET_SIZE
-        end = start + self.size()
+        end = self.size()
         self._raw_target = self._raw[start:end]
 
     def get_item_shell_fs_folder(self, flags: int) -> str:
diff --git a/LnkParse3/target/unknown.py b/LnkParse3/target/unknown.py
index bb6f740..8143c55 100644
--- a/LnkParse3/target/unknown.py
+++ b/LnkParse3/target/unknown.py
@@ -9,5 +9,5 @@ class Unknown(LnkTargetBase):
 
     def as_item(self):
         item = super().as_item()
-        item["size"] = self.SIZE_OF_TARGET_SIZE + self.size()
+        item["size"] = self.size()
         return item
-- 
2.43.0


From 96d2a0d2aafc2db61ddc733c70dfd29c978db419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 09/25] fix: read the control panel item identifier at its
 offset

It is at offset 14 of the item including its 2-byte size field (an item is 30
bytes), i.e. at 12 of the data; it was read 2 bytes late, past the item's end.
---
 LnkParse3/target/control_panel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/control_panel.py b/LnkParse3/target/control_panel.py
index 2532f13..6c64022 100644
--- a/LnkParse3/target/control_panel.py
+++ b/LnkParse3/target/control_panel.py
@@ -9,7 +9,7 @@ from LnkParse3.target.lnk_target_base import LnkTargetBase
 | ClassTypeIndicator == 0x70/71 |             Unknown                |
 ----------------------------------------------------------------------
 |                           Unknown                                  |
-|                             12 B                                   |
+|                             10 B                                   |
 ----------------------------------------------------------------------
 |              <GUID> ControlPanelItemIdentifier                     |
 |                             16 B                                   |
@@ -25,7 +25,7 @@ class ControlPanel(LnkTargetBase):
 
     @uuid
     def control_panel_item_identifier(self):
-        start, end = 14, 30
+        start, end = 12, 28
         return self._raw_target[start:end]
 
     def as_item(self):
-- 
2.43.0


From d5678612a68cd070f3f9bee1f594f3b1c76e4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:12 +0000
Subject: [PATCH 10/25] fix: keep the other target items when one cannot be
 decoded

A truncated item raised struct.error, and a network location with fewer strings
than its flags announce raised RuntimeError (StopIteration inside a generator),
from get_json() and every print method.
---
 LnkParse3/extra/shell_item.py        | 22 ++++++++++++++++------
 LnkParse3/lnk_targets.py             | 22 ++++++++++++++++------
 LnkParse3/target/network_location.py |  4 ++--
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 1dacea3..6bb9130 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 
 from LnkParse3.extra.lnk_extra_base import LnkExtraBase
 from LnkParse3.lnk_targets import TargetFactory
@@ -42,25 +43,34 @@ class ShellItem(LnkExtraBase):
         rest = self._raw[8 : self.size()]
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                size = factory.item_size()
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID list ({e})")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID `{target_class.__name__}` ({e})")
+                target = None
 
-            size = factory.item_size()
             rest = rest[size:]
-            yield target
+            if target:
+                yield target
 
     def id_list(self):
         res = []
         for target in self._id_list():
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing extra TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})"
                 warnings.warn(msg)
                 continue
         return res
diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 1639ba8..be47c74 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 from struct import unpack
 
 from LnkParse3.target_factory import TargetFactory
@@ -70,25 +71,34 @@ class LnkTargets:
         rest = self._raw_targets
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                size = factory.item_size()
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID list ({e})")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID `{target_class.__name__}` ({e})")
+                target = None
 
-            size = factory.item_size()
             rest = rest[size:]
-            yield target
+            if target:
+                yield target
 
     def as_list(self):
         res = []
         for target in self:
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing TargetID `{target.name}` ({type(e).__name__} {e})"
                 warnings.warn(msg)
                 continue
         return res
diff --git a/LnkParse3/target/network_location.py b/LnkParse3/target/network_location.py
index bb46400..839cf28 100644
--- a/LnkParse3/target/network_location.py
+++ b/LnkParse3/target/network_location.py
@@ -37,11 +37,11 @@ class NetworkLocation(LnkTargetBase):
 
         self._description = None
         if self._has_description():
-            self._description = next(it)
+            self._description = next(it, None)
 
         self._comments = None
         if self._has_comments():
-            self._comments = next(it)
+            self._comments = next(it, None)
 
     def as_item(self):
         item = super().as_item()
-- 
2.43.0


From 26da9bc31d81ef61cd9bea4f79afc35c53e92587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:57 +0000
Subject: [PATCH 11/25] fix: do not fail on a truncated ID list or link info
 structure

The constructor raised struct.error without a complete ID list size, and
get_json() and every print method raised it when a link info field lay outside
of the data.
---
 LnkParse3/lnk_file.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index cfc88bb..c5b68fd 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -75,8 +75,11 @@ class LnkFile:
         # Parse ID List
         self.targets = None
         if self.has_target_id_list():
-            self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
-            index += self.targets.size()
+            try:
+                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
+                index += self.targets.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID list: {e!r}")
 
         # Parse Link Info
         self.info = None
@@ -203,6 +206,18 @@ class LnkFile:
         )
 
     def get_json(self, get_all=False):
+        res = self._header_and_target()
+
+        res["link_info"] = {}
+        try:
+            self._add_link_info(res)
+        except StructError as e:
+            # Keep what was read before a truncated or misplaced field.
+            warnings.warn(f"Error while parsing Link Info: {e!r}")
+
+        return self._add_data(res, get_all)
+
+    def _header_and_target(self):
         res = {
             "size": self.size,
             "header": {
@@ -233,7 +248,9 @@ class LnkFile:
                 "index": self._target_index,
             }
 
-        res["link_info"] = {}
+        return res
+
+    def _add_link_info(self, res):
         if self.info:
             res["link_info"] = {
                 "link_info_size": self.info.size(),
@@ -318,6 +335,7 @@ class LnkFile:
                 if self.info.device_name():
                     res["link_info"]["location_info"]["device_name"] = self.info.device_name()
 
+    def _add_data(self, res, get_all):
         res["data"] = self.string_data.as_dict()
         res["extra"] = self.extras.as_dict()
 
-- 
2.43.0


From fb6dc348f860a93b9bfab2a4c4df850f08e33fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 12/25] fix: do not fail on a Darwin descriptor that is too
 short

parse_packed_uuid raised IndexError, which get_json() and every print method
let through.
---
 LnkParse3/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index dcc1819..1110470 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -41,6 +41,10 @@ def parse_packed_uuid(text):
     if text is None:
         return None
 
+    if len(text) < 20:
+        warnings.warn("Invalid packed UUID: %s" % text)
+        return None
+
     # An implemetation is based on
     # https://metadataconsulting.blogspot.com/2019/12/CSharp-Convert-a-GUID-to-a-Darwin-Descriptor-and-back.html
     quad1 = _quad_to_hex(text[0:5])
-- 
2.43.0


From 1687cb6b47ad3a160d312829622bd5e7aca85b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 13/25] fix: print the shortcut target of a file whose strings
 are truncated

A missing relative path or argument string raised TypeError.
---
 LnkParse3/lnk_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index c5b68fd..7423e48 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -172,10 +172,14 @@ class LnkFile:
 
         if self.has_relative_path():
             relative_path = self.string_data.relative_path()
-            out.append(list2cmdline([relative_path]))
+            # The string is missing from a truncated file.
+            if relative_path is not None:
+                out.append(list2cmdline([relative_path]))
 
         if self.has_arguments():
-            out.append(self.string_data.command_line_arguments())
+            arguments = self.string_data.command_line_arguments()
+            if arguments is not None:
+                out.append(arguments)
 
         return " ".join(out)
 
-- 
2.43.0


From 9ddfb848c9a4f66e680b92dac6c2566577de868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 14/25] fix: read the header fields of a file that declares too
 small a header size

The header was cut to the declared size: the constructor or get_json() raised
struct.error although the fields were there.
---
 LnkParse3/lnk_header.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_header.py b/LnkParse3/lnk_header.py
index e27d723..417a6d3 100644
--- a/LnkParse3/lnk_header.py
+++ b/LnkParse3/lnk_header.py
@@ -299,7 +299,8 @@ class LnkHeader:
         self._lnk_header = {}
         self._stash = {}
 
-        self._raw = self._raw[: self.size()]
+        # The fields have fixed offsets, whatever size is declared.
+        self._raw = self._raw[: max(self.size(), 0x0000004C)]
 
     @must_be(int("0x0000004C", 16))
     def size(self):
-- 
2.43.0


From 84b58940bf468efba4c05f451a97127045e60382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 15/25] fix: read a property storage and its values from their
 own bytes only

The values of a storage without a terminator ran on into the storages after it:
n small storages were reported with n*n/2 values that are not there (19 KB of
input gave 319600 of them), and a value's string into the values after it.
---
 LnkParse3/extra/metadata.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index f769356..c2d7df5 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -282,13 +282,18 @@ class SerializedPropertyStorage:
         if self.format_id() == "D5CDD505-2E9C-101B-9397-08002B2CF9AE":
             serialized_property_value_class = SerializedPropertyValueStringName
 
-        while True:
+        while self._raw[start:]:
             value = serialized_property_value_class(self._raw[start:], self._text_processor)
-            if hex(value.value_size()) == hex(0x0):
+            size = value.value_size()
+            if hex(size) == hex(0x0):
                 break
 
+            # Likewise, a value must not be read from the values that follow it.
+            value = serialized_property_value_class(
+                self._raw[start : start + size], self._text_processor
+            )
             result.append(value)
-            start += value.value_size()
+            start += size
 
         return result
 
@@ -315,11 +320,16 @@ class Metadata(LnkExtraBase):
 
         while True:
             storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
-            if hex(storage.storage_size()) == hex(0x0):
+            size = storage.storage_size()
+            if hex(size) == hex(0x0):
                 break
 
+            # Its values must not be read from the storages that follow it.
+            storage = SerializedPropertyStorage(
+                self._raw[start : start + size], self.text_processor
+            )
             result.append(storage)
-            start += storage.storage_size()
+            start += size
 
         return result
 
-- 
2.43.0


From e77e4cc7509b4876abc8a7e7e4156e35ffafe438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 16/25] fix: convert FILETIME values without rounding errors

The conversion went through a float of the seconds: the result was off by a
microsecond or more (16 us in year 9000).
---
 LnkParse3/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index 1110470..e728b31 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -1,6 +1,7 @@
 import sys
 import warnings
 from datetime import datetime
+from datetime import timedelta
 from datetime import timezone
 from struct import unpack
 
@@ -96,11 +97,10 @@ def parse_filetime(binary):
             # application, then saved from it, and never ever opened.
             return None
 
-        epoch_as_filetime = 116444736000000000
-        hundreds_of_nanoseconds = 10000000
-
-        timestamp = (nanosec - epoch_as_filetime) / hundreds_of_nanoseconds
-        return datetime.fromtimestamp(timestamp, tz=timezone.utc)
+        # NOTE: A float cannot hold every FILETIME, an integer can. The value is
+        # rounded to microseconds.
+        filetime_epoch = datetime(1601, 1, 1, tzinfo=timezone.utc)
+        return filetime_epoch + timedelta(microseconds=(nanosec + 5) // 10)
     except (OSError, OverflowError, ValueError):
         if sys.version_info < (3, 8, 0):
             # HACK for older versions for bytes.hex()
-- 
2.43.0


From 620c7ec6799b8f3f0c47d1dd23f0caaec96848c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 17/25] fix: print text that happens to hold the empty line
 placeholder

EMPTY_LINE_PLACEHOLDER in any string of the file was replaced with a line
break, so a crafted file could alter the printed report.
---
 LnkParse3/lnk_file.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 7423e48..00247d2 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -139,18 +139,14 @@ class LnkFile:
 
         res_json = make_keys_nice(res, uppercase=True)
 
-        # insert placeholders for empty lines
-        res_json = {"EMPTY_LINE_PLACEHOLDER" + k: v for k, v in res_json.items()}
+        # remove header key, put an empty line before every other section
+        sections = [res_json.pop("HEADER")]
+        sections.extend({k: v} for k, v in res_json.items())
 
-        # remove header key
-        new_res_json = res_json["EMPTY_LINE_PLACEHOLDERHEADER"]
-        res_json.pop("EMPTY_LINE_PLACEHOLDERHEADER")
-        new_res_json.update(res_json)
-
-        res_yaml = yaml.dump(new_res_json, indent=3, sort_keys=False, width=132, allow_unicode=True)
-
-        # replace palceholders for empty lines
-        res_yaml = res_yaml.replace("EMPTY_LINE_PLACEHOLDER", "\n")
+        res_yaml = "\n".join(
+            yaml.dump(section, indent=3, sort_keys=False, width=132, allow_unicode=True)
+            for section in sections
+        )
 
         print("Windows Shortcut Information:")
         print(textwrap.indent(res_yaml, "   "))
-- 
2.43.0


From 70362f3531f375a0f496c358a3e1dcd001b003ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 18/25] fix: reject empty input bytes like an empty file

LnkFile(indata=b"") failed with AttributeError instead of LnkParserError.
---
 LnkParse3/lnk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 00247d2..400400d 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -27,7 +27,7 @@ class LnkFile:
     def __init__(self, fhandle=None, indata=None, cp=None, allow_terminal_blocks=True):
         if fhandle:
             self.indata = fhandle.read()
-        elif indata:
+        elif indata is not None:
             self.indata = indata
 
         self.cp = cp
-- 
2.43.0


From 965873e09bef15fe473f100e820d64f6aead5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 19/25] fix: read no string or block after a target or link
 info size that is cut off

---
 LnkParse3/lnk_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 400400d..325af55 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -80,6 +80,8 @@ class LnkFile:
                 index += self.targets.size()
             except StructError as e:
                 warnings.warn(f"Error while parsing TargetID list: {e!r}")
+                # Its size is cut off, nothing can follow.
+                index = len(self.indata)
 
         # Parse Link Info
         self.info = None
@@ -93,6 +95,7 @@ class LnkFile:
                 index += info.size()
             except StructError as e:
                 warnings.warn(f"Error while parsing Link Info: {e!r}")
+                index = len(self.indata)
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From c7dfac20cf170a2eb86e38ea4850289d8afbc045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:16 +0000
Subject: [PATCH 20/25] fix: do not copy the rest of a list for each of its
 elements

---
 LnkParse3/extra/metadata.py   |  8 +++++---
 LnkParse3/extra/shell_item.py | 13 ++++++++-----
 LnkParse3/extra_data.py       | 11 +++++++----
 LnkParse3/lnk_targets.py      | 12 +++++++-----
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index c2d7df5..2d362e3 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -282,8 +282,9 @@ class SerializedPropertyStorage:
         if self.format_id() == "D5CDD505-2E9C-101B-9397-08002B2CF9AE":
             serialized_property_value_class = SerializedPropertyValueStringName
 
-        while self._raw[start:]:
-            value = serialized_property_value_class(self._raw[start:], self._text_processor)
+        while start < len(self._raw):
+            head = self._raw[start : start + 4]
+            value = serialized_property_value_class(head, self._text_processor)
             size = value.value_size()
             if hex(size) == hex(0x0):
                 break
@@ -319,7 +320,8 @@ class Metadata(LnkExtraBase):
         result = []
 
         while True:
-            storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
+            head = self._raw[start : start + 4]
+            storage = SerializedPropertyStorage(head, self.text_processor)
             size = storage.storage_size()
             if hex(size) == hex(0x0):
                 break
diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 6bb9130..0282ae7 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -40,9 +40,11 @@ class ShellItem(LnkExtraBase):
         |         TerminalID           |
         --------------------------------
         """
-        rest = self._raw[8 : self.size()]
-        while rest:
-            factory = TargetFactory(indata=rest)
+        # NOTE: Slicing off the rest for every item would copy it again and again.
+        raw = self._raw[: self.size()]
+        start = 8
+        while start < len(raw):
+            factory = TargetFactory(indata=raw[start : start + 3])
             try:
                 size = factory.item_size()
                 target_class = factory.target_class()
@@ -55,12 +57,13 @@ class ShellItem(LnkExtraBase):
                 break
 
             try:
-                target = target_class(indata=rest, cp=self.cp)
+                item = raw[start : start + max(size, 2)]
+                target = target_class(indata=item, cp=self.cp)
             except StructError as e:
                 warnings.warn(f"Error while parsing extra TargetID `{target_class.__name__}` ({e})")
                 target = None
 
-            rest = rest[size:]
+            start += size
             if target:
                 yield target
 
diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 38b6529..c55e949 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -26,9 +26,10 @@ class ExtraData:
 
     def process(self):
         self.data = []
-        rest = self._raw
-        while rest:
-            factory = ExtraFactory(indata=rest)
+        # NOTE: Slicing off the rest for every block would copy it again and again.
+        start = 0
+        while start < len(self._raw):
+            factory = ExtraFactory(indata=self._raw[start : start + 8])
             try:
                 size = factory.item_size()
             except StructError as e:
@@ -39,7 +40,8 @@ class ExtraData:
             if size < 0x00000004:
                 break
 
-            data, rest = rest[:size], rest[size:]
+            data = self._raw[start : start + size]
+            start += size
 
             cls = factory.extra_class()
             if cls:
@@ -47,6 +49,7 @@ class ExtraData:
                 self.data.append(extra)
 
         # If there is data following the Terminal Block, we should take note of it and tell the user.
+        rest = self._raw[start:]
         if self.allow_terminal_blocks and len(rest) > 4 and unpack("<I", rest[:4])[0] < 0x00000004:
             extra = Terminal(indata=rest, cp=self.cp)
             self.data.append(extra)
diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index be47c74..6e2776e 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -68,9 +68,10 @@ class LnkTargets:
         |         TerminalID           |
         --------------------------------
         """
-        rest = self._raw_targets
-        while rest:
-            factory = TargetFactory(indata=rest)
+        # NOTE: Slicing off the rest for every item would copy it again and again.
+        start = 0
+        while start < len(self._raw_targets):
+            factory = TargetFactory(indata=self._raw_targets[start : start + 3])
             try:
                 size = factory.item_size()
                 target_class = factory.target_class()
@@ -83,12 +84,13 @@ class LnkTargets:
                 break
 
             try:
-                target = target_class(indata=rest, cp=self.cp)
+                item = self._raw_targets[start : start + max(size, 2)]
+                target = target_class(indata=item, cp=self.cp)
             except StructError as e:
                 warnings.warn(f"Error while parsing TargetID `{target_class.__name__}` ({e})")
                 target = None
 
-            rest = rest[size:]
+            start += size
             if target:
                 yield target
 
-- 
2.43.0


From 6dfeb791eb9279047b76771c977de0e440042a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 21/25] fix: skip items without data instead of typing them by
 the next item's bytes

---
 LnkParse3/extra/shell_item.py | 5 +++++
 LnkParse3/lnk_targets.py      | 5 +++++
 LnkParse3/target_factory.py   | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 0282ae7..d6d955c 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -47,6 +47,11 @@ class ShellItem(LnkExtraBase):
             factory = TargetFactory(indata=raw[start : start + 3])
             try:
                 size = factory.item_size()
+                if 0 < size <= TargetFactory.SIZE_OF_ITEM_SIZE:
+                    # The item has no data of its own, so it has no type either.
+                    warnings.warn("Skipping extra TargetID without data")
+                    start += TargetFactory.SIZE_OF_ITEM_SIZE
+                    continue
                 target_class = factory.target_class()
             except StructError as e:
                 warnings.warn(f"Error while parsing extra TargetID list ({e})")
diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 6e2776e..19ceb58 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -74,6 +74,11 @@ class LnkTargets:
             factory = TargetFactory(indata=self._raw_targets[start : start + 3])
             try:
                 size = factory.item_size()
+                if 0 < size <= TargetFactory.SIZE_OF_ITEM_SIZE:
+                    # The item has no data of its own, so it has no type either.
+                    warnings.warn("Skipping TargetID without data")
+                    start += TargetFactory.SIZE_OF_ITEM_SIZE
+                    continue
                 target_class = factory.target_class()
             except StructError as e:
                 warnings.warn(f"Error while parsing TargetID list ({e})")
diff --git a/LnkParse3/target_factory.py b/LnkParse3/target_factory.py
index 25b8729..be85899 100644
--- a/LnkParse3/target_factory.py
+++ b/LnkParse3/target_factory.py
@@ -17,6 +17,8 @@ from LnkParse3.target.users_files_folder import UsersFilesFolder
 
 
 class TargetFactory:
+    SIZE_OF_ITEM_SIZE = 2
+
     # https://github.com/libyal/libfwsi/blob/master/documentation/Windows%20Shell%20Item%20format.asciidoc#3-type-indicator-based-shell-items
     SHELL_ITEM_CLASSES = {
         0x00: ControlPanelCPL,
-- 
2.43.0


From bbb847b6a859cd669e5bdc56a2be46894d9cfba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 22/25] fix: name the flags of Unicode shares

---
 LnkParse3/target/lnk_target_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index 53bfab2..872bf37 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -23,9 +23,9 @@ the items in that part of the namespace.
 class LnkTargetBase:
     SHELL_ITEM_SHEL_FS_FOLDER = {
         # FIXME: Temporary solution for not make a breaking change
+        0x07: "Is Unicode share",
         0x05: "Is Unicode directory",
         0x06: "Is Unicode file",
-        0x07: "Is Unicode share",
         0x03: "Is share",
         0x01: "Is directory",
         0x02: "Is file",
-- 
2.43.0


From 7ca5b45eb531d1d51cf07b935cafe3b728d3fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 23/25] fix: read link info from its own bytes only

---
 LnkParse3/lnk_info.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 72e3168..99df9c6 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -54,7 +54,9 @@ ShellLinkHeader.
 
 class LnkInfo:
     def __init__(self, indata=None, cp=None):
-        self._raw = indata
+        # What follows the structure is not part of it, whatever its offsets say.
+        size = int.from_bytes(indata[:4], "little")
+        self._raw = indata[: max(size, 4)]
         self.text_processor = TextProcessor(cp=cp)
 
     def size(self):
-- 
2.43.0


From a9e75ecf95cfa6c0c6af5e24dd1aff96d242b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:02 +0000
Subject: [PATCH 24/25] fix: do not report FILETIME values beyond the range of
 dates as dates before 1601

A FILETIME counts from 1601 on and is not signed: Windows refuses values with the
highest bit set. They were reported as dates from before 1601, without a warning.
---
 LnkParse3/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index e728b31..77c1ae6 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -90,7 +90,7 @@ def parse_filetime(binary):
     #   https://stackoverflow.com/questions/38878647/python-convert-filetime-to-datetime-for-dates-before-1970
     #   https://computerforensics.parsonage.co.uk/downloads/TheMeaningofLIFE.pdf
     try:
-        nanosec = unpack("<q", binary)[0]
+        nanosec = unpack("<Q", binary)[0]
 
         if nanosec == 0:
             # If the date is 0 it means that the file has been created in an
-- 
2.43.0


From 680639247f1aac8a2997e3488b65627008700393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:49 +0000
Subject: [PATCH 25/25] fix: give no Unicode share or device name where there
 is none

Without an offset to them, net_name_unicode() and device_name_unicode() read
text from the start of the structure, or failed.
---
 LnkParse3/info/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 5866f57..4a33095 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -127,7 +127,7 @@ class Network(LnkInfo):
         return unpack("<I", self._raw[start:end])[0]
 
     def net_name_unicode(self):
-        if self.net_name_offset() <= 20:
+        if not self.net_name_offset_unicode():
             return None
 
         start = self.common_network_relative_link_offset()
@@ -145,7 +145,7 @@ class Network(LnkInfo):
         return unpack("<I", self._raw[start:end])[0]
 
     def device_name_unicode(self):
-        if self.net_name_offset() <= 20:
+        if not self.device_name_offset_unicode():
             return None
 
         start = self.common_network_relative_link_offset()
-- 
2.43.0

