From e35c9ac6bbff1fd0c6b995ff7d2bab08498ffad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 01/53] fix: split Modbus TCP writes longer than one request

The slice bounds were only computed for the last request, so a write of more
than max_count registers raised UnboundLocalError.
---
 sunspec/core/modbus/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7509187..11b4d8e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -943,8 +943,8 @@ class ModbusClientDeviceTCP(object):
                     write_count = self.max_count
                 else:
                     write_count = count
-                    start = (write_offset * 2)
-                    end = int((write_offset + write_count) * 2)
+                start = int(write_offset * 2)
+                end = int((write_offset + write_count) * 2)
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
-- 
2.43.0


From ab5639b7804480568c7b46b7a2b22c8a819cfede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 02/53] fix: limit write requests to the 123 registers Modbus
 permits

Function 16 carries at most 123 registers; 124 and 125 register requests are
illegal and rejected by devices.
---
 sunspec/core/modbus/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 11b4d8e..b3595b2 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -39,6 +39,7 @@ PARITY_NONE = 'N'
 PARITY_EVEN = 'E'
 
 REQ_COUNT_MAX = 125
+REQ_WRITE_COUNT_MAX = 123
 
 FUNC_READ_HOLDING = 3
 FUNC_READ_INPUT = 4
@@ -434,8 +435,8 @@ class ModbusClientRTU(object):
 
         if self.serial is not None:
             while (count > 0):
-                if count > max_count:
-                    write_count = max_count
+                if count > min(max_count, REQ_WRITE_COUNT_MAX):
+                    write_count = min(max_count, REQ_WRITE_COUNT_MAX)
                 else:
                     write_count = count
                 start = int(write_offset * 2)
@@ -939,8 +940,8 @@ class ModbusClientDeviceTCP(object):
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    write_count = self.max_count
+                if count > min(self.max_count, REQ_WRITE_COUNT_MAX):
+                    write_count = min(self.max_count, REQ_WRITE_COUNT_MAX)
                 else:
                     write_count = count
                 start = int(write_offset * 2)
-- 
2.43.0


From 2dfddaac0ba745b3a0e431fcb310f1762ecd258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 03/53] fix: reject writes of an odd number of bytes

They were sent as malformed requests whose byte count did not match the
register count.
---
 sunspec/core/modbus/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b3595b2..4edfb95 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -433,6 +433,9 @@ class ModbusClientRTU(object):
         write_offset = 0
         count = len(data)/2
 
+        if len(data) % 2 != 0:
+            raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
+
         if self.serial is not None:
             while (count > 0):
                 if count > min(max_count, REQ_WRITE_COUNT_MAX):
@@ -934,6 +937,9 @@ class ModbusClientDeviceTCP(object):
         local_connect = False
         count = len(data)/2
 
+        if len(data) % 2 != 0:
+            raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
+
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
-- 
2.43.0


From 1465c6792bb5a94682c198aeecdb72232dcc51ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 04/53] fix: let requests be traced on Python 3

The request is a bytes object, so ord() of its items raised TypeError and any
traced read or TCP write failed.
---
 sunspec/core/modbus/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 4edfb95..b9dd1fc 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -233,8 +233,8 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             trace_func(s)
 
         self.serial.flushInput()
@@ -755,8 +755,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
@@ -870,8 +870,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
-- 
2.43.0


From 36ae18e2670b28a4d60305e304f0916d7b66769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 05/53] fix: release the socket when a TCP connection attempt
 fails

The unconnected socket was kept, so every later request used it instead of
connecting again.
---
 sunspec/core/modbus/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b9dd1fc..5b77201 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -731,6 +731,7 @@ class ModbusClientDeviceTCP(object):
 
             self.socket.connect((self.ipaddr, self.ipport))
         except Exception as e:
+            self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
 
     def disconnect(self):
-- 
2.43.0


From f11e0baa0a840ade93d7bbdbc05070fe46036936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 06/53] fix: report TCP receive timeouts and failures as Modbus
 client errors

socket.timeout and socket.error escaped from read() and write().
---
 sunspec/core/modbus/client.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 5b77201..181bbb3 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -766,7 +766,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
@@ -881,7 +886,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
-- 
2.43.0


From e61d87732f393e289be73d84c07763994b8383ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 07/53] fix: report serial receive failures as Modbus client
 errors

---
 sunspec/core/modbus/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 181bbb3..f0849f3 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -237,14 +237,17 @@ class ModbusClientRTU(object):
                 s += '%02X' % (c)
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -360,8 +363,8 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             if sys.version_info > (3,):
                 req = bytes(req, "latin-1")
             self.serial.write(req)
@@ -369,7 +372,10 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
-- 
2.43.0


From 194613c6dabd5fc84e06add72ce03a084385132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 08/53] fix: drop the TCP connection after a failed exchange

After a timeout the response could still arrive and was then returned as the
answer to the next request on the same connection.
---
 sunspec/core/modbus/client.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index f0849f3..40b5ebe 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -855,6 +855,13 @@ class ModbusClientDeviceTCP(object):
                     read_offset += read_count
                 else:
                     break
+        except ModbusClientException:
+            # complete response received, the connection is still in step
+            raise
+        except Exception:
+            # the response may still arrive and must not be taken for that of a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
@@ -972,6 +979,13 @@ class ModbusClientDeviceTCP(object):
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
+        except ModbusClientException:
+            # complete response received, the connection is still in step
+            raise
+        except Exception:
+            # the response may still arrive and must not be taken for that of a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
-- 
2.43.0


From 6480183eafd0ca53892ec300583ebf3f50c6b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 09/53] fix: check that an RTU response answers the request

A response from another slave, for another function or with another register
count was returned as the data requested, and exception code 0 was taken for
success.
---
 sunspec/core/modbus/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 40b5ebe..d342c20 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -277,9 +277,14 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
+            if ord(resp[0]) != int(slave_id) or ord(resp[1]) != (op | 0x80):
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[0]) != int(slave_id) or ord(resp[1]) != op or ord(resp[2]) != int(count) * 2:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[3:-2]
 
     def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
@@ -405,7 +410,9 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
+            if ord(resp[0]) != int(slave_id) or ord(resp[1]) != (func | 0x80):
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception: %d' % (except_code))
         else:
             if sys.version_info > (3,):
-- 
2.43.0


From 3587ffab1f95ff8d817bedafee5c4717b8967e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 10/53] fix: check that a TCP response answers the request

Reads returned whatever bytes followed the header of a response for another
function or of another length, and writes succeeded on any response.
---
 sunspec/core/modbus/client.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index d342c20..97d40e0 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -814,9 +814,15 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
+            if ord(resp[TCP_HDR_LEN + 1]) != (op | 0x80) or len(resp) != TCP_HDR_LEN + 3:
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if (ord(resp[TCP_HDR_LEN + 1]) != op or ord(resp[TCP_HDR_LEN + 2]) != int(count) * 2 or
+                len(resp) != TCP_HDR_LEN + 3 + int(count) * 2):
+            raise ModbusClientError('Modbus response format error')
+
         return resp[(TCP_HDR_LEN + 3):]
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
@@ -947,9 +953,15 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
+            if ord(resp[TCP_HDR_LEN + 1]) != (func | 0x80) or len(resp) != TCP_HDR_LEN + 3:
+                raise ModbusClientError('Modbus response format error')
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
+        # response must acknowledge the function, address and register count of the request
+        if [ord(c) for c in resp[TCP_HDR_LEN + 1:]] != list(bytearray(struct.pack('>BHH', func, int(addr), write_count))):
+            raise ModbusClientError('Modbus response format error')
+
     def write(self, addr, data):
         """ Write Modbus device registers. If no connection exists to the
         destination, one is created and disconnected at the end of the request.
-- 
2.43.0


From 9995b6adaa894cd03ed5007c264662fb3ccb7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 11/53] fix: closing an RTU device again must not unregister a
 newer client

The second close removed whichever client was then registered for the port, so
the port could be opened twice.
---
 sunspec/core/modbus/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 97d40e0..24ce260 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -220,7 +220,8 @@ class ModbusClientRTU(object):
         # if no more devices using the client interface, close and remove the client
         if len(self.devices) == 0:
             self.close()
-            modbus_rtu_client_remove(self.name)
+            if modbus_rtu_clients.get(self.name) is self:
+                modbus_rtu_client_remove(self.name)
 
     def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
         resp = ''
-- 
2.43.0


From 17a457dc3c4b81d4d08ea73a77c5916cc78f4d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 12/53] fix: report addresses outside the Modbus address space
 as client errors

scan() of a device without an end model ran into struct.error.
---
 sunspec/core/modbus/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 24ce260..8adc0fd 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -321,6 +321,9 @@ class ModbusClientRTU(object):
         read_count = 0
         read_offset = 0
 
+        if addr < 0 or addr + count > 0x10000:
+            raise ModbusClientError('Address out of range: %s' % (str(addr)))
+
         if self.serial is not None:
             while (count > 0):
                 if count > max_count:
@@ -450,6 +453,9 @@ class ModbusClientRTU(object):
         if len(data) % 2 != 0:
             raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
 
+        if addr < 0 or addr + count > 0x10000:
+            raise ModbusClientError('Address out of range: %s' % (str(addr)))
+
         if self.serial is not None:
             while (count > 0):
                 if count > min(max_count, REQ_WRITE_COUNT_MAX):
@@ -851,6 +857,9 @@ class ModbusClientDeviceTCP(object):
         read_offset = 0
         local_connect = False
 
+        if addr < 0 or addr + count > 0x10000:
+            raise ModbusClientError('Address out of range: %s' % (str(addr)))
+
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
@@ -984,6 +993,9 @@ class ModbusClientDeviceTCP(object):
         if len(data) % 2 != 0:
             raise ModbusClientError('Data length not even number of bytes: %d' % (len(data)))
 
+        if addr < 0 or addr + count > 0x10000:
+            raise ModbusClientError('Address out of range: %s' % (str(addr)))
+
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
-- 
2.43.0


From 3c5ccbb0c816c25e72e485f450578a43f5598e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 13/53] fix: raise ModbusClientError for map errors of a mapped
 device

ModbusMapError escaped, so scan() stopped at the first base address that was
not in the map.
---
 sunspec/core/modbus/client.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 8adc0fd..ad5879a 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -1076,7 +1076,10 @@ class ModbusClientDeviceMapped(object):
 
         if name is not None:
             self.modbus_map = mbmap.ModbusMap(slave_id)
-            self.modbus_map.from_xml(name, pathlist)
+            try:
+                self.modbus_map.from_xml(name, pathlist)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise mbmap.ModbusMapError('No modbus map file provided during initialization')
 
@@ -1107,7 +1110,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.read(addr, count, op)
+            try:
+                return self.modbus_map.read(addr, count, op)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
@@ -1125,7 +1131,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.write(addr, data)
+            try:
+                return self.modbus_map.write(addr, data)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
-- 
2.43.0


From 28a324a4476bf2b80b1585e616c21592ca2c0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 14/53] fix: derive whole register counts for map content
 without a length

Counts were floats on Python 3, so such registers could not be read, and a
string got half the registers it needs.
---
 sunspec/core/modbus/mbmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0a010d3..539e582 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,7 +140,7 @@ class ModbusMap(object):
                             else:
                                 data += c
 
-            mmr = ModbusMapRegs(offset, len(data)/2, data, MBMAP_REGS_ACCESS_RW)
+            mmr = ModbusMapRegs(offset, len(data)//2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
         except Exception as e:
@@ -248,7 +248,7 @@ class ModbusMap(object):
                     rlen = 4
                 elif rtype == MBMAP_REGS_TYPE_STRING:
                     if rlen == 0:
-                        rlen = (len(text) + 3)/4
+                        rlen = (len(text) + 1)//2
 
                     # Python 3 compatibility for byte strings
                     if sys.version_info > (3,):
@@ -263,7 +263,7 @@ class ModbusMap(object):
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
-                        rlen = text_len/4
+                        rlen = text_len//4
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From ebefb91958c592b640d286c655914b0f70fd9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 15/53] fix: keep the base address of a loaded map as a number

regs_add() by address raised TypeError and equal maps compared unequal.
---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 539e582..c650eb2 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -186,7 +186,7 @@ class ModbusMap(object):
             if value is None:
                 raise ModbusMapError('Unsupported function: %s' % (func))
             self.func = value
-            self.base_addr = root.attrib.get(MBMAP_ADDR, 40000)
+            self.base_addr = int(root.attrib.get(MBMAP_ADDR, 40000))
             self.ns = root.attrib.get(MBMAP_NS)
             self.lid = root.attrib.get(MBMAP_LID)
             self.mapid = root.attrib.get(MBMAP_MAPID)
-- 
2.43.0


From fb5d24ecee07b31b9f570cd65f2239c1e3fc2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 16/53] fix: advance by bytes when a map write spans register
 blocks

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index c650eb2..0c90f45 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -436,7 +436,7 @@ class ModbusMap(object):
                     end = int(data_offset + (write_count * 2))
                     regs.write(offset, data[start:end])
                     offset += write_count
-                    data_offset += write_count
+                    data_offset += write_count * 2
                     count_remaining -= write_count
                 else:
                     continue
-- 
2.43.0


From fd2093054df213ccf6d4c4a7693f0a93f2cabc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 17/53] fix: keep the register access setting when saving a map

---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0c90f45..271ed18 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -315,6 +315,8 @@ class ModbusMap(object):
 
         for regs in self.regs:
             e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count)})
+            if regs.access != MBMAP_REGS_ACCESS_R:
+                e.attrib[MBMAP_REGS_ACCESS] = str(regs.access)
 
             if no_data is False:
                 s = ''
-- 
2.43.0


From 970606dec406713badc6e8a458d1fe36595e9811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 18/53] fix: let a device be scanned again or from a known base
 address

The map header was only read while searching for the base address, so such a
scan raised UnboundLocalError; models of an earlier scan are replaced.
---
 sunspec/core/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4962a9a..51ed0ab 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -242,8 +242,13 @@ class ClientDevice(device.Device):
             if delay is not None:
                 time.sleep(delay)
 
+        base_addr_list = self.base_addr_list
+        if self.base_addr is not None:
+            base_addr_list = [self.base_addr]
+            self.base_addr = None
+
         if self.base_addr is None:
-            for addr in self.base_addr_list:
+            for addr in base_addr_list:
                 # print('trying base address %s' % (addr))
                 try:
                     data = self.read(addr, 3)
@@ -264,6 +269,8 @@ class ClientDevice(device.Device):
             # print('base address = %s' % (self.base_addr))
             model_id = util.data_to_u16(data[4:6])
             addr = self.base_addr + 2
+            self.models_list = []
+            self.models = {}
 
             while model_id != suns.SUNS_END_MODEL_ID:
                 # read model and model len separately due to some devices not supplying
-- 
2.43.0


From 9cbd5b45db7773a2a01885531785464c21821688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 19/53] fix: close the connection and report the error when a
 scan fails

A failed connection raised ModbusClientError, and any other failure left the
connection opened for the scan open.
---
 sunspec/core/client.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 51ed0ab..ffe3ca0 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -232,16 +232,27 @@ class ClientDevice(device.Device):
         SunSpec model definitions.
         """
 
-        error = ''
-
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
-            self.modbus_device.connect()
+            try:
+                self.modbus_device.connect()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus error: %s' % str(e))
             connect = True
 
             if delay is not None:
                 time.sleep(delay)
 
+        try:
+            self._scan_models(progress, delay)
+        finally:
+            if connect:
+                self.modbus_device.disconnect()
+
+    def _scan_models(self, progress=None, delay=None):
+
+        error = ''
+
         base_addr_list = self.base_addr_list
         if self.base_addr is not None:
             base_addr_list = [self.base_addr]
@@ -310,9 +321,6 @@ class ClientDevice(device.Device):
                 error = 'Unknown error'
             raise SunSpecClientError(error)
 
-        if connect:
-            self.modbus_device.disconnect()
-
 class ClientModel(device.Model):
     """A derived class based on :const:`sunspec.core.device.Model`. It adds
     Modbus device access capability to the model base class.
-- 
2.43.0


From c5bd340720720467673f42d931aa198e13548e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 20/53] fix: pass a trace function to the modbus device when
 tracing is enabled

The flag itself was called as the trace function.
---
 sunspec/core/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index ffe3ca0..46542ec 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -41,6 +41,9 @@ PARITY_EVEN = modbus.PARITY_EVEN
 class SunSpecClientError(SunSpecError):
     pass
 
+def trace_print(s):
+    print(s)
+
 class ClientDevice(device.Device):
 
     """ClientDevice
@@ -153,6 +156,10 @@ class ClientDevice(device.Device):
         self.retry_count = 2
         self.base_addr_list = [40000, 0, 50000]
 
+        # the modbus devices expect a trace function
+        if trace is True:
+            trace = trace_print
+
         try:
             if device_type == RTU:
                 self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
-- 
2.43.0


From fae53fdc500e1b1b097f87c1e73706ba7f6a3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 21/53] fix: keep points dirty until the device has taken their
 values

Points were marked as written before the request was sent, so after a failed
write the new values were never sent again.
---
 sunspec/core/client.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 46542ec..b4783f3 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -440,6 +440,7 @@ class ClientModel(device.Model):
         addr = None
         next_addr = None
         data = b''
+        points = []
 
         for block in self.blocks:
             for point in block.points_list:
@@ -453,14 +454,22 @@ class ClientModel(device.Model):
                     else:
                         if point_addr != next_addr:
                             block.model.device.write(addr, data)
+                            self._points_written(points)
                             addr = point_addr
                             data = b''
+                            points = []
                     next_addr = point_addr + point_len
                     data += point_data
-                    point.dirty = False
+                    points.append(point)
             if addr is not None:
                 block.model.device.write(addr, data)
+                self._points_written(points)
                 addr = None
+                points = []
+
+    def _points_written(self, points):
+        for point in points:
+            point.dirty = False
 
 class ClientBlock(device.Block):
     """A derived class based on :const:`sunspec.core.device.Block`. It adds
-- 
2.43.0


From 87850043ceff6de276e4cd3e6d4683c6037ebaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 22/53] fix: let attributes of SunSpecClientDevice be set by
 key

---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index b4783f3..9604656 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -893,7 +893,7 @@ class SunSpecClientDevice(object):
         return self.__dict__.get(key, None)
 
     def __setitem__(self, key, item):
-        self.__dict__.set(key, item)
+        self.__dict__[key] = item
 
     def __str__(self):
 
-- 
2.43.0


From bcf3ba77669dbd51db0ea1b9b2eaf120761ee045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 23/53] fix: apply the scale factor to points without a value

Assigning to a point the device reports as unimplemented ignored its scale
factor, and reading the value of a scaled point loaded from PICS without a value
raised TypeError.
---
 sunspec/core/client.py | 8 +++-----
 sunspec/core/device.py | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 9604656..5f30ff5 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -416,12 +416,10 @@ class ClientModel(device.Model):
                                 if (type(point.value_base) == bytes and
                                         sys.version_info > (3,)):
                                     point.value_base = str(point.value_base, 'latin-1')
-                                if point.point_type.is_impl(point.value_base):
-                                    if point.sf_point is not None:
-                                        point.value_sf = point.sf_point.value_base
-                                else:
+                                if point.sf_point is not None:
+                                    point.value_sf = point.sf_point.value_base
+                                if not point.point_type.is_impl(point.value_base):
                                     point.value_base = None
-                                    point.value_sf = None
                             else:
                                 raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
 
diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cafc223..b2d82bd 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -510,7 +510,7 @@ class Point(object):
     # use older property format to support earlier python 2.x versions
     def value_getter(self):
 
-        if self.value_sf:
+        if self.value_sf and self.value_base is not None:
             return self.value_base * math.pow(10, self.value_sf)
         else:
             return self.value_base
-- 
2.43.0


From 13d0c6ddb5a00e0dfbb88a6122b8f2e44fe1062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 24/53] fix: encode strings in exactly the length requested

A terminator was added beyond the length of short string points, so the write
was an odd number of bytes and displaced the points that followed.
---
 sunspec/core/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2c59734..574103a 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -141,13 +141,13 @@ def float_to_data(f, len=None):
     return struct.pack('>d', f)
 
 def str_to_data(s, slen=None):
-    if slen is None:
-        slen = len(s)
     if sys.version_info > (3,):
         s = bytes(s, 'latin-1')
-    if slen < 16:
-        s += b'\x00'
-        slen += 1
+    if slen is None:
+        slen = len(s)
+        if slen < 16:
+            s += b'\x00'
+            slen += 1
     return struct.pack(str(slen) + 's', s)
 
 def eui48_to_data(eui48):
-- 
2.43.0


From 7b58ced9166a4b0816685cd780da24c8a2859dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 25/53] fix: let eui48 points be written

The encoder did not accept the length argument all the others take.
---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 574103a..f86d4d2 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -150,7 +150,7 @@ def str_to_data(s, slen=None):
             slen += 1
     return struct.pack(str(slen) + 's', s)
 
-def eui48_to_data(eui48):
+def eui48_to_data(eui48, len=None):
     return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
 
 
-- 
2.43.0


From 00cebfe3ea6bcbe16ddd81bb3b9727e76660388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 26/53] fix: treat uint64 points as unsigned

The unimplemented value was not recognized and values from 2^63 were negative.
---
 sunspec/core/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/suns.py b/sunspec/core/suns.py
index 3204939..db2c5dd 100644
--- a/sunspec/core/suns.py
+++ b/sunspec/core/suns.py
@@ -182,7 +182,7 @@ suns_point_type_info = {
     SUNS_TYPE_BITFIELD32: (2, suns_is_impl_bitfield32, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_IPADDR: (2, suns_is_impl_ipaddr, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_INT64: (4, suns_is_impl_int64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
+    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
     SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
     SUNS_TYPE_IPV6ADDR: (8, suns_is_impl_ipv6addr, util.data_to_ipv6addr, util.ipv6addr_to_data, suns_to_str, 0),
     SUNS_TYPE_FLOAT32: (2, suns_is_impl_float32, util.data_to_float, util.float_to_data32, suns_to_float, 0),
-- 
2.43.0


From 2f3a4de9e605fe1078393dd951794c4c02c4a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 27/53] fix: load PICS documents that give a base address or
 omit a model length

---
 sunspec/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index b2d82bd..ab59d0e 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -165,7 +165,7 @@ class Device(object):
                 d = element
             if d.tag != pics.PICS_DEVICE:
                 raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
-            self.base_addr = d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT)
+            self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
             addr = self.base_addr + 2
 
             for m in d.findall('*'):
@@ -183,7 +183,7 @@ class Device(object):
                     model_len = int(model_len)
 
                 # move address past model id and length (even though address is not real in the case)
-                model = Model(self, model_id, addr + 2, model_len)
+                model = Model(self, model_id, addr + 2, model_len or 0)
                 try:
                     model.load()
                 except Exception as e:
-- 
2.43.0


From bbda55ad3b6bc21a18308481c27f11e465bf1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 28/53] fix: clear the value of points a PICS document reports
 as unimplemented

A repeating block kept the value applied to all blocks from the first one.
---
 sunspec/core/device.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index ab59d0e..d4a15fa 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -549,6 +549,7 @@ class Point(object):
                 self.impl = self.point_type.is_impl(value)
         else:
             self.impl = False
+            self.value_base = None
 
         if self.impl and value is not None:
             self.value_base = value
-- 
2.43.0


From f3f8b43c0c4fff1dbb7d75579270046b9dc1f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 29/53] fix: report an unresolved scale factor as SunSpecError

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index d4a15fa..f771a7c 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -766,7 +766,7 @@ class Model(object):
                         if point.sf_point is None:
                             # ### what state should model be left in on exception
                             raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
-                                point.point_type.sf, point.point_type.pid, self.id)
+                                (point.point_type.sf, point.point_type.id, self.id))
 
                 block_addr += block_len
                 block_type = self.model_type.repeating_block
-- 
2.43.0


From 80a590328e9124e762735e4beddeadb51a2b3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 30/53] fix: compare point definitions by content

Symbols were compared by identity, so two devices of the same model were never
equal, and an attribute missing on one side was ignored.
---
 sunspec/core/device.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index f771a7c..caddf6f 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1434,7 +1434,10 @@ class PointType(object):
         for k, v in self.__dict__.items():
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
-                if v is not None and value is not None:
+                if k == 'symbols':
+                    v = [s.__dict__ for s in v]
+                    value = [s.__dict__ for s in value]
+                if v is not None or value is not None:
                     if value is None or v != value:
                         return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
 
-- 
2.43.0


From 39700e6c5926d1e5c23be11a12694ae0b36f8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 31/53] fix: compare models that have no model definition

not_equal() raised AttributeError for devices with an unknown model.
---
 sunspec/core/device.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index caddf6f..b7273e8 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -864,7 +864,14 @@ class Model(object):
         """
 
         if len(self.blocks) != len(model.blocks):
-            return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(self.blocks), len(model.blocks))
+            return 'model %s not equal - block counts: %d  %d' % (self.id, len(self.blocks), len(model.blocks))
+
+        if self.model_type is None:
+            # no model definition, only the id and length are known
+            if model.model_type is not None or self.id != model.id or self.len != model.len:
+                return 'model %s not equal - model id or length not equal: %s' % (self.id, model.id)
+            return False
+
         s = self.model_type.not_equal(model.model_type)
         if s:
             return 'model {} not equal - model id not equal: {}'.format(self.model_type.id, s)
-- 
2.43.0


From 868e218a8135c63bb2e56d4249b0a435e4704f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 32/53] fix: write the model index and namespace of SunSpec
 data records

model_add() exchanged the two and an index could not be serialized.
---
 sunspec/core/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index f1d6260..ab82530 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -138,7 +138,7 @@ class DeviceData(object):
 
     def model_add(self, model_id=None, index=None, namespace=None):
 
-    	m = ModelData(model_id, namespace, index)
+    	m = ModelData(model_id, index, namespace)
     	self.model_data.append(m)
     	return m
 
@@ -247,7 +247,7 @@ class ModelData(object):
         if self.index is None and sys.version_info > (3,):
             self.index = -233
         if self.index > 1:
-            attr[SDX_MODEL_INDEX] = self.index
+            attr[SDX_MODEL_INDEX] = str(self.index)
         if self.index is -233 and sys.version_info > (3,):
             self.index = None
         if self.namespace:
-- 
2.43.0


From 6d2d0b39d4c05efab438be86e38657c252480ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 33/53] fix: keep the timestamp of a loaded SunSpec data record

---
 sunspec/core/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index ab82530..2676568 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -158,6 +158,7 @@ class DeviceData(object):
         self.mod = element.attrib.get(SDX_DEVICE_MOD)
         self.sn = element.attrib.get(SDX_DEVICE_SN)
         self.time = element.attrib.get(SDX_DEVICE_TIME)
+        self.timestamp = self.time
         self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
 
         for m in element.findall('*'):
-- 
2.43.0


From 2503fe7f0a80fee060ea2dfafcf597696e165b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 34/53] fix: search the paths that follow a zip file in a path
 list

---
 sunspec/core/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index f86d4d2..bb623b7 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -210,6 +210,7 @@ class PathList(object):
         # traverse path list until first instance of file found
         for p in self.path:
             file_path = ''
+            zip_file_path = ''
             element_list = p.split(os.sep)
             sep = os.sep
 
-- 
2.43.0


From fbe26512d74963c77beb4633521f43b9afe0dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 35/53] fix: report devices that contain models without a
 definition

---
 scripts/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 146e403..329c687 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -88,7 +88,7 @@ if __name__ == "__main__":
         sd.read()
 
         for model in sd.device.models_list:
-            if model.model_type.label:
+            if model.model_type is not None and model.model_type.label:
                 label = '%s (%s)' % (model.model_type.label, str(model.id))
             else:
                 label = '(%s)' % (str(model.id))
-- 
2.43.0


From 03cb6286cd21f8105d9cfe2f7aebd785940c16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 36/53] fix: keep the known base address when a scan fails

---
 sunspec/core/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 5f30ff5..1bfae2b 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -260,18 +260,18 @@ class ClientDevice(device.Device):
 
         error = ''
 
+        base_addr = None
         base_addr_list = self.base_addr_list
         if self.base_addr is not None:
             base_addr_list = [self.base_addr]
-            self.base_addr = None
 
-        if self.base_addr is None:
+        if base_addr is None:
             for addr in base_addr_list:
                 # print('trying base address %s' % (addr))
                 try:
                     data = self.read(addr, 3)
                     if data[:4] == b'SunS':
-                        self.base_addr = addr
+                        base_addr = addr
                         # print('device base address = %d' % self.base_addr)
                         break
                     else:
@@ -283,8 +283,9 @@ class ClientDevice(device.Device):
                 if delay is not None:
                     time.sleep(delay)
 
-        if self.base_addr is not None:
+        if base_addr is not None:
             # print('base address = %s' % (self.base_addr))
+            self.base_addr = base_addr
             model_id = util.data_to_u16(data[4:6])
             addr = self.base_addr + 2
             self.models_list = []
-- 
2.43.0


From 1586c9b2bf83bd02fd7a3e2ebb2aa043c733a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 37/53] fix: closing an RTU device again must not remove a
 newer device of its slave id

---
 sunspec/core/modbus/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index ad5879a..e6708f1 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -537,7 +537,8 @@ class ModbusClientDeviceRTU(object):
         """Close the device. Called when device is not longer in use.
         """
 
-        if self.client:
+        # the slave id may have been taken over by a device opened since
+        if self.client and self.client.devices.get(self.slave_id) is self:
             self.client.remove_device(self.slave_id)
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
-- 
2.43.0


From 650a1d0337f3f68a03e38dddf1e11a41ba45ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 38/53] fix: reject map content that does not fit in its
 registers

---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 271ed18..c731fd5 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -274,6 +274,8 @@ class ModbusMap(object):
                             data += c
                     # fill remainder of string with nulls
                     padding_needed = 2 * int(rlen - text_len / 4)
+                    if padding_needed < 0:
+                        raise ModbusMapError('Hex string content does not fit in %d registers' % (rlen))
                     if padding_needed > 0:
                         if data is None:
                             data = b''
-- 
2.43.0


From f6c1dd6556572830305232dba7196b3884cfd6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 39/53] fix: load map registers without content or length

---
 sunspec/core/modbus/mbmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index c731fd5..f2ce9ef 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -265,6 +265,7 @@ class ModbusMap(object):
                     if rlen == 0:
                         rlen = text_len//4
                     text_index = 0
+                    data = b''
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
                         text_index += 2
-- 
2.43.0


From af6e9c54aa6d42484980061fb14efa4f4168b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 40/53] fix: a read that replaces an unwritten value must not
 leave it to be written

---
 sunspec/core/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 1bfae2b..93e92fb 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -421,6 +421,8 @@ class ClientModel(device.Model):
                                     point.value_sf = point.sf_point.value_base
                                 if not point.point_type.is_impl(point.value_base):
                                     point.value_base = None
+                                # an assigned value that was not written is gone
+                                point.dirty = False
                             else:
                                 raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
 
-- 
2.43.0


From 28a2d39dbcebdb2ab97620c37f6f0f8cf910b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 41/53] fix: a repeating block without length must not be
 repeated forever

---
 sunspec/core/device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index b7273e8..67a589b 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -777,6 +777,8 @@ class Model(object):
                 block_len = int(block_type.len)
                 if end_addr == block_end:
                     break
+                if block_len == 0:
+                    raise SunSpecError('Repeating block without length in model %s' % self.id)
         else:
             raise SunSpecError('Unknown model type - id: %s' % str(self.id))
 
-- 
2.43.0


From d8f45411838178fb0af741f8f71dfb24cd3c1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:21 +0000
Subject: [PATCH 42/53] fix: symbols are those of their own point, texts for
 unknown symbols are ignored

---
 sunspec/core/device.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 67a589b..af3529e 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1401,11 +1401,11 @@ class PointType(object):
                 self.notes = e.text
             elif e.tag == smdx.SMDX_SYMBOL:
                 sid = e.attrib.get(smdx.SMDX_ATTR_ID)
-                symbol = self.block_type.model_type.symbol_get(
-                    sid=sid,
-                    point_id=self.id,
-                )
+                symbol = self.symbol_get(sid)
                 if symbol is None:
+                    if strings:
+                        # text for a symbol the point does not have
+                        continue
                     symbol = Symbol()
                     symbol.from_smdx(e, strings)
                     self.block_type.model_type.symbol_add(
-- 
2.43.0


From e07564fb99077f19b7311448bca429766edf8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 43/53] fix: path list entries inside zip files may end with a
 separator

---
 sunspec/core/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index bb623b7..ff7df3c 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -216,6 +216,9 @@ class PathList(object):
 
             for e in element_list:
                 if e == '':
+                    if zip_file_path:
+                        # zip file entries have no leading or trailing separators
+                        continue
                     file_path += sep
                 elif file_path and file_path != sep:
                     file_path += sep
-- 
2.43.0


From 59b49b620baa8abf971b504719942daa81094caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 44/53] fix: a PICS point with the unimplemented value has no
 value, whatever it had before

---
 sunspec/core/device.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index af3529e..38717b0 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -543,15 +543,14 @@ class Point(object):
                 impl = False
 
         value = None
-        if impl:
-            if element.text:
-                value = self.point_type.to_value(element.text)
-                self.impl = self.point_type.is_impl(value)
-        else:
-            self.impl = False
-            self.value_base = None
+        if impl and element.text:
+            value = self.point_type.to_value(element.text)
+            impl = self.point_type.is_impl(value)
 
-        if self.impl and value is not None:
+        self.impl = impl
+        if not impl:
+            self.value_base = None
+        elif value is not None:
             self.value_base = value
 
     def to_pics(self, parent):
-- 
2.43.0


From dfd50cd10ed9a5372580b3694b690904f5135b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 45/53] fix: the index of a repeating block in a PICS document
 must be that of a repeating block

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 38717b0..e6e1859 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -820,7 +820,7 @@ class Model(object):
                             block.from_pics(b)
                 else:
                     block_index = int(block_index)
-                    if len(self.blocks) < block_index:
+                    if not 0 < block_index < len(self.blocks):
                         raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                     self.blocks[block_index].from_pics(b)
             else:
-- 
2.43.0


From f1bc1cbdd0af7a0e6fb7e15b85ff1ff108d6417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 46/53] fix: scale factors of a PICS document apply whatever
 the order of its blocks

---
 sunspec/core/device.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index e6e1859..497bcb0 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -826,6 +826,12 @@ class Model(object):
             else:
                 raise SunSpecError('Internal block type error')
 
+        # resolve scale factor values of the fixed block in repeating blocks, whatever the order in the document
+        for block in self.blocks[1:]:
+            for point in block.points_list:
+                if point.sf_point is not None:
+                    point.value_sf = point.sf_point.value_base
+
     def to_pics(self, parent, single_repeating=True):
         """ Adds the model and all elements within the model to the parent
         element. If *single_repeating* is True, only the first repeating block
-- 
2.43.0


From 1cd235c82a2590d7e14377253ee8f4e57c6798b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 47/53] fix: report a read failure of the command line tool as
 an error instead of a traceback

---
 scripts/suns.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 329c687..35edae3 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -85,7 +85,11 @@ if __name__ == "__main__":
         print( '\nTimestamp: %s' % (time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime())))
 
         # read all models in the device
-        sd.read()
+        try:
+            sd.read()
+        except client.SunSpecClientError as e:
+            print('Error: %s' % (e))
+            sys.exit(1)
 
         for model in sd.device.models_list:
             if model.model_type is not None and model.model_type.label:
-- 
2.43.0


From 6c7216e4564f851817eb2546d11f482054141296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 48/53] fix: connect over TLS without verifying the server when
 tls_verify is off

---
 sunspec/core/modbus/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index e6708f1..9d5db43 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -747,6 +747,8 @@ class ModbusClientDeviceTCP(object):
                 context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
                 context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
                 context.check_hostname = self.tls_verify
+                if not self.tls_verify:
+                    context.verify_mode = ssl.CERT_NONE
 
                 self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
 
-- 
2.43.0


From 010be6482a01e50a97266bfe25181195025d191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 49/53] fix: print every model of a device that has several of
 a name

---
 sunspec/core/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 93e92fb..a332403 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -899,8 +899,13 @@ class SunSpecClientDevice(object):
     def __str__(self):
 
         s = ''
-        for model in self.models:
-            s += str(self[model])
+        for name in self.models:
+            models = self[name]
+            # models present several times are in a list that starts with None
+            if type(models) is not list:
+                models = [None, models]
+            for model in models[1:]:
+                s += str(model)
 
         return s
 
-- 
2.43.0


From 9bc46c8f4c9df7eb15b5cd34bedc99512450a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 50/53] fix: models of another device keep their points when
 the definition of a model id differs

---
 sunspec/core/client.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index a332403..1ed191d 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -711,10 +711,9 @@ def model_class_get(model_id):
         SunSpecClientBlockBase.__init__(self, block, name)
 
     class_name = 'Model' + str(model_id)
-    class_ = globals().get(class_name)
-    if class_ is None:
-        class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
-        globals()[class_name] = class_
+    # models made earlier may have another definition and keep their class
+    class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
+    globals()[class_name] = class_
 
     setattr(class_, 'points', [])
     model_type = None
-- 
2.43.0


From 650acadf506dfdc2cb5e4fe22f7e780a0ef37ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 51/53] fix: report a definition file that is not well-formed
 XML as a SunSpecError

---
 sunspec/core/device.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 497bcb0..c6979df 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -933,10 +933,9 @@ def model_type_get(model_id):
                     raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
 
         if smdx_data:
-            root = ET.fromstring(smdx_data)
-
             # load model type
             try:
+                root = ET.fromstring(smdx_data)
                 model_type = ModelType()
                 model_type.from_smdx(root)
                 model_types[model_type.id] = model_type
-- 
2.43.0


From 8ae54ce832d7a5484fb684342e447f4767db0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 52/53] fix: a directory with the name of a file is not that
 file

---
 sunspec/core/device.py | 4 ++--
 sunspec/core/util.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index c6979df..ed97722 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -921,10 +921,10 @@ def model_type_get(model_id):
                 pass
 
         if not smdx_data:
-            if not os.path.exists(filename):
+            if not os.path.isfile(filename):
                 filename = os.path.join(model_type_path_default, filename)
 
-            if os.path.exists(filename):
+            if os.path.isfile(filename):
                 try:
                     f = open(filename, 'r')
                     smdx_data = f.read()
diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index ff7df3c..33e0482 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -245,7 +245,7 @@ class PathList(object):
                     continue
                 return zip_file.read(file_path)
             else:
-                if os.path.exists(file_path):
+                if os.path.isfile(file_path):
                     with open(file_path, 'rb') as f:
                         return f.read()
                 else:
-- 
2.43.0


From 5e79b1ce77eb3b6f2d26661e9fe137160b363141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 53/53] fix: read XML files as bytes, so that their declared
 encoding counts

---
 sunspec/core/device.py       | 4 ++--
 sunspec/core/modbus/mbmap.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index ed97722..0057f09 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -150,7 +150,7 @@ class Device(object):
 
                 # try local directory
                 if not pics_data:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     pics_data = f.read()
                     f.close()
 
@@ -926,7 +926,7 @@ def model_type_get(model_id):
 
             if os.path.isfile(filename):
                 try:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     smdx_data = f.read()
                     f.close()
                 except Exception as e:
diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index f2ce9ef..5d90214 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -171,7 +171,7 @@ class ModbusMap(object):
                 if pathlist is not None:
                     map_data = pathlist.read(filename)
                 else:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     map_data = f.read()
                     f.close()
 
-- 
2.43.0

