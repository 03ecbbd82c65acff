From 21e69ab9f742b481fb2650bca6087ab50b84b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 01/36] fix: mark one-way calls of the asyncio client as ONEWAY

---
 anthunder/client/aio_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 3fef513..0519c56 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -73,7 +73,7 @@ class AioClient(_BaseClient):
 
     def invoke_oneway(self, interface, method, content, *, spanctx, **headers):
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=-1)
+        pkg = BoltRequest.new_request(header, content, ptype=PTYPE.ONEWAY, timeout_ms=-1)
         asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
 
     def invoke_sync(self, interface, method, content, *, spanctx, timeout_ms, **headers):
-- 
2.43.0


From 2f217ab905b5bcfc2a395f06ce4231a6ef7e7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 02/36] fix: accept a response that arrives before its request
 finished draining

---
 anthunder/client/aio_client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 0519c56..bdbe0ff 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -199,7 +199,7 @@ class AioClient(_BaseClient):
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-        self.request_mapping[request.request_id] = asyncio.Event()
+        event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
             await _send()
         except PyboltError:
@@ -212,10 +212,11 @@ class AioClient(_BaseClient):
             return
 
         if request.ptype == PTYPE.ONEWAY:
-            self.request_mapping.pop(request.request_id)
+            self.request_mapping.pop(request.request_id, None)
             return
 
-        return self.request_mapping[request.request_id]
+        # the response may have been received already, while the last drain was waiting
+        return event
 
     async def _recv_response(self, reader, writer):
         """
-- 
2.43.0


From 61ed7344fcc9434ec69d75730305d7e8db4cd86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 03/36] fix: raise an error for an asyncio client request that
 cannot be sent

---
 anthunder/client/aio_client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index bdbe0ff..1e1a272 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -204,12 +204,12 @@ class AioClient(_BaseClient):
             await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
-            self.request_mapping.pop(request.request_id)
-            return
+            self.request_mapping.pop(request.request_id, None)
+            raise
         except Exception:
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id)
-            return
+            self.request_mapping.pop(request.request_id, None)
+            raise
 
         if request.ptype == PTYPE.ONEWAY:
             self.request_mapping.pop(request.request_id, None)
-- 
2.43.0


From 229372802e149e2d0e432168115d0c62f2f51b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 04/36] fix: raise the server's status to the caller of the
 asyncio client

---
 anthunder/client/aio_client.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 1e1a272..ad671a1 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -172,7 +172,17 @@ class AioClient(_BaseClient):
             logger.debug("no related event, should be a async/oneway call, return now")
             return
         await event.wait()
-        return self.response_mapping.pop(request.request_id)
+        resp = self.response_mapping.pop(request.request_id, None)
+        if resp is None:
+            raise ServerError("no valid response to request {}".format(request.request_id))
+        if request.cmdcode == CMDCODE.HEARTBEAT:
+            # judged by invoke_heartbeat
+            return resp
+        if resp.cmdcode != CMDCODE.RESPONSE:
+            raise ServerError("wrong cmdcode:[{}]".format(resp.cmdcode))
+        if resp.respstatus != RESPSTATUS.SUCCESS:
+            raise ServerError.from_statuscode(resp.respstatus)
+        return resp
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -233,13 +243,9 @@ class AioClient(_BaseClient):
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
-                if pkg.cmdcode == CMDCODE.HEARTBEAT:
-                    continue
-                elif pkg.cmdcode == CMDCODE.REQUEST:
+                if pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
                     raise ServerError("wrong cmdcode:[{}]".format(pkg.cmdcode))
-                if pkg.respstatus != RESPSTATUS.SUCCESS:
-                    raise ServerError.from_statuscode(pkg.respstatus)
                 if pkg.request_id not in self.request_mapping:
                     continue
                 self.response_mapping[pkg.request_id] = pkg
-- 
2.43.0


From 6c742e2b287716f8669c294c94782e048a26d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 05/36] fix: keep the periodic heartbeat going whatever a
 heartbeat's outcome

---
 anthunder/client/aio_client.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index ad671a1..8c15c77 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -122,7 +122,13 @@ class AioClient(_BaseClient):
         """Invoke heartbeat periodly"""
         while True:
             await asyncio.sleep(interval)
-            await self.invoke_heartbeat(address)
+            asyncio.ensure_future(self._heartbeat_once(address, interval))
+
+    async def _heartbeat_once(self, address, timeout):
+        try:
+            await asyncio.wait_for(self.invoke_heartbeat(address), timeout)
+        except Exception as e:
+            logger.error("heartbeat to {} failed: {!r}".format(address, e))
 
     async def invoke_heartbeat(self, address):
         """
@@ -137,6 +143,10 @@ class AioClient(_BaseClient):
             logger.error("heartbeat response request_id({}) mismatch with request({}).".format(resp.request_id,
                                                                                                pkg.request_id))
             return False
+        if resp.cmdcode != CMDCODE.HEARTBEAT:
+            logger.error("wrong cmdcode ({}) in heartbeat response on request({}).".format(resp.cmdcode,
+                                                                                           resp.request_id))
+            return False
         if resp.respstatus != RESPSTATUS.SUCCESS:
             logger.error("heartbeat response status ({}) on request({}).".format(resp.respstatus, resp.request_id))
             return False
-- 
2.43.0


From 5ce556b6ff2461e8e54229d6f87869eaa2c92f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 06/36] fix: forget cancelled calls of the asyncio client

---
 anthunder/client/aio_client.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 8c15c77..2f793f9 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -177,12 +177,17 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        event = await self._send_request(request, address=address)
-        if event is None:
-            logger.debug("no related event, should be a async/oneway call, return now")
-            return
-        await event.wait()
-        resp = self.response_mapping.pop(request.request_id, None)
+        try:
+            event = await self._send_request(request, address=address)
+            if event is None:
+                logger.debug("no related event, should be a async/oneway call, return now")
+                return
+            await event.wait()
+            resp = self.response_mapping.get(request.request_id)
+        finally:
+            # leave nothing behind, also when the call was cancelled
+            self.request_mapping.pop(request.request_id, None)
+            self.response_mapping.pop(request.request_id, None)
         if resp is None:
             raise ServerError("no valid response to request {}".format(request.request_id))
         if request.cmdcode == CMDCODE.HEARTBEAT:
-- 
2.43.0


From fe323cc586e21a8cc78cfd5d5ee1f8faa8b40266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 07/36] fix: drop only the failed connection when sending fails
 concurrently

---
 anthunder/client/aio_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 2f793f9..a095660 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -219,8 +219,9 @@ class AioClient(_BaseClient):
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
-                self.connection_mapping.pop(address)
-                self._pending_dial.pop(address)
+                if self.connection_mapping.get(address) == (readtask, writer):
+                    # not yet replaced by another sender
+                    self.connection_mapping.pop(address)
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-- 
2.43.0


From 7ca30b55c9ef835892d60662c05dd4f4584c7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 08/36] fix: keep the connection when a request cannot be
 encoded

---
 anthunder/client/aio_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index a095660..394b3ab 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -207,6 +207,7 @@ class AioClient(_BaseClient):
         :return:
         """
         assert isinstance(request, BoltRequest)
+        data = request.to_stream()  # a request that cannot be encoded must not harm the connection
 
         async def _send(retry=3):
             if retry <= 0:
@@ -214,7 +215,7 @@ class AioClient(_BaseClient):
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
-                writer.write(request.to_stream())
+                writer.write(data)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
-- 
2.43.0


From 152224f8545995aa8f8b8452e0fd7005b6093771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 09/36] fix: fail the asyncio client call whose response cannot
 be decoded

---
 anthunder/client/aio_client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 394b3ab..111f54c 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -252,7 +252,7 @@ class AioClient(_BaseClient):
         :return:
         """
         while True:
-            pkg = None
+            header = None
             try:
                 fixed_header_bs = await reader.readexactly(BoltResponse.bolt_header_size())
                 header = BoltResponse.bolt_header_from_stream(fixed_header_bs)
@@ -278,7 +278,7 @@ class AioClient(_BaseClient):
                 writer.close()
                 break
             finally:
-                with suppress(AttributeError, KeyError):
+                with suppress(TypeError, KeyError):
                     # wake up the coro
-                    event = self.request_mapping.pop(pkg.request_id)
+                    event = self.request_mapping.pop(header['request_id'])
                     event.set()
-- 
2.43.0


From 8c5913d16f1fe4e0f48e537444660ff212a7ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 10/36] fix: read the whole frame before decoding its header
 block

---
 anthunder/listener/aio_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 106a43e..1d4b987 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -207,10 +207,12 @@ class AioListener(BaseListener):
                 bs = await reader.readexactly(header['header_len'])
                 logger.debug("received sofa header({})".format(bs))
 
-                sofa_header = SofaHeader.from_bytes(bs)
                 body = await reader.readexactly(header['content_len'])
                 logger.debug("received sofa body({})".format(body))
 
+                # decode after the whole frame is consumed, or the stream gets out of step when it fails
+                sofa_header = SofaHeader.from_bytes(bs)
+
                 if cmdcode == CMDCODE.HEARTBEAT:
                     logger.info("received heartbeat, request_id={}".format(header['request_id']))
                     asyncio.ensure_future(
-- 
2.43.0


From b0824653c9c4c4d7bd4c3ee38828067b625b3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 11/36] fix: do not reply again to an earlier request when the
 connection ends

---
 anthunder/listener/aio_listener.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 1d4b987..a97dcb2 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -185,6 +185,7 @@ class AioListener(BaseListener):
         logger.info("connection created.")
         first_req = True
         while True:
+            header = None
             try:
                 try:
                     fixed_header_bs = await reader.readexactly(BoltRequest.bolt_header_size())
-- 
2.43.0


From 065fa729f64596dca4037a109a2fb55bf8518258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 12/36] fix: answer a request whose trace context is invalid

---
 anthunder/listener/aio_listener.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index a97dcb2..2cfb9cc 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -135,9 +135,8 @@ class AioListener(BaseListener):
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
-        spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
-
         try:
+            spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
             await self._write_msg(writer,
-- 
2.43.0


From 5c0f7d81d65ccfbdea591d34286a28dfd7f58537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 13/36] fix: answer a request also when the service returns
 empty or unserializable content

---
 anthunder/listener/aio_listener.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 2cfb9cc..3e0a432 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -162,14 +162,19 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result:
-            header = dict()
-            tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
-            pkg = BoltResponse.response_to(result, request_id=request_id)
-            try:
-                await self._write_msg(writer, pkg.to_stream())
-            except Exception:
-                logger.error(traceback.format_exc())
+        header = dict()
+        tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
+        pkg = BoltResponse.response_to(result, request_id=request_id)
+        try:
+            msg = pkg.to_stream()
+        except Exception:
+            # the service returned something else than bytes
+            logger.error(traceback.format_exc())
+            msg = FailResponse.response_to(request_id, RESPSTATUS.SERVER_SERIAL_EXCEPTION).to_stream()
+        try:
+            await self._write_msg(writer, msg)
+        except Exception:
+            logger.error(traceback.format_exc())
 
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
-- 
2.43.0


From 2c116e923f339372dabbeb3be5ca6a8c16fedd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 14/36] fix: reject requests with an unknown command code

---
 anthunder/listener/aio_listener.py  | 2 +-
 anthunder/listener/sock_listener.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 3e0a432..cff3190 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -224,7 +224,7 @@ class AioListener(BaseListener):
                         self._write_msg(writer, HeartbeatResponse.response_to(header['request_id']).to_stream()))
                     continue
 
-                if cmdcode == CMDCODE.RESPONSE:
+                if cmdcode != CMDCODE.REQUEST:
                     raise ClientError("wrong cmdcode:[{}]".format(cmdcode))
 
                 if class_name != "com.alipay.sofa.rpc.core.request.SofaRequest".encode():
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 5942867..b8525a2 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -107,7 +107,7 @@ class SockBoltHandler(StreamRequestHandler):
                 self.wfile.flush()
                 return
 
-            if cmdcode == CMDCODE.RESPONSE:
+            if cmdcode != CMDCODE.REQUEST:
                 raise ClientError("wrong cmdcode:[{}]".format(cmdcode))
 
             if class_name != "com.alipay.sofa.rpc.core.request.SofaRequest".encode():
-- 
2.43.0


From ba5584d10f92931adfa5907a5e61931f48819ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 15/36] fix: do not report a failing service constructor as a
 missing method

---
 anthunder/listener/aio_listener.py  | 2 +-
 anthunder/listener/sock_listener.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index cff3190..57db523 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -64,8 +64,8 @@ class AioThreadpoolRequestHandler(BaseHandler):
         except KeyError as e:
             logger.error("Service not found in interface registry: [{}]".format(service))
             raise NoProcessorError("Service not found in interface registry: [{}]".format(service)) from e
+        svc_obj = ServiceCls(spanctx)
         try:
-            svc_obj = ServiceCls(spanctx)
             func = getattr(svc_obj, method)
         except AttributeError as e:
             logger.error("No such method[{}]".format(method))
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index b8525a2..e06fe6c 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -50,8 +50,8 @@ class SockServiceHandler(BaseHandler):
         except KeyError as e:
             logger.error("Service not found in interface registry: [{}]".format(service))
             raise NoProcessorError("Service not found in interface registry: [{}]".format(service))
+        svc_obj = ServiceCls(spanctx)
         try:
-            svc_obj = ServiceCls(spanctx)
             func = getattr(svc_obj, method)
         except AttributeError as e:
             logger.error("No such method[{}]".format(method))
-- 
2.43.0


From e054fd591f779a70c5870d626b396c2ffd2ae313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 16/36] fix: stop reading in the blocking server when the peer
 closes the connection

---
 anthunder/listener/sock_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index e06fe6c..fbf14a7 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -85,7 +85,10 @@ class SockBoltHandler(StreamRequestHandler):
     def _readexactly(self, bs_cnt):
         bs = b''
         while len(bs) < bs_cnt:
-            bs += self.rfile.read(bs_cnt - len(bs))
+            part = self.rfile.read(bs_cnt - len(bs))
+            if not part:
+                raise EOFError("connection closed by remote")
+            bs += part
         return bs
 
     def handle(self):
-- 
2.43.0


From 3ab66cd0db926856e6afecbb215f64c5557fa0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 17/36] fix: do not answer one-way requests in the blocking
 server

---
 anthunder/listener/sock_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index fbf14a7..081956a 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -30,7 +30,7 @@ from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
-from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from anthunder.protocol import BoltResponse
 
 from .base_listener import BaseListener, BaseHandler, NoProcessorError
@@ -132,6 +132,8 @@ class SockBoltHandler(StreamRequestHandler):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             # call servicehandler
             ret = self.service_handler.handle_request(spanctx, service, method, body)
+            if call_type == PTYPE.ONEWAY:
+                return
             self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
             self.wfile.flush()
 
-- 
2.43.0


From 64a9a10797702db6d270655c654fddeaf6c3da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 18/36] fix: do not hand out a connection found dropped

---
 mysockpool/connection_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 44ce63f..2a99406 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -124,6 +124,7 @@ class ConnectionPool(object):
         if conn and is_connection_dropped(conn):
             log.debug("Resetting dropped connection: %r", self.pool_key)
             conn.close()
+            conn = None
             with self._lock:
                 self.num_connections -= 1
 
-- 
2.43.0


From 6f58bf5ccf2a1154fd58cfc9405008d9bca4b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 19/36] fix: count pooled connections atomically and only when
 created

---
 mysockpool/connection_pool.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 2a99406..6a14445 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -84,11 +84,16 @@ class ConnectionPool(object):
                                      "Pool reached maximum size and no more "
                                      "connections are allowed.")
 
-        self.num_connections += 1
+            self.num_connections += 1
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-        conn = self.ConnectionCls(self.pool_key)
+        try:
+            conn = self.ConnectionCls(self.pool_key)
+        except Exception:
+            with self._lock:
+                self.num_connections -= 1
+            raise
         return conn
 
     def get_conn(self, timeout=None):
-- 
2.43.0


From 27232f57569bacc17b3920533317966c68f093d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 20/36] fix: make closing a closed connection pool harmless

---
 mysockpool/connection_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 6a14445..498ced9 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -173,6 +173,8 @@ class ConnectionPool(object):
         """
         # Disable access to the pool
         old_pool, self.pool = self.pool, None
+        if old_pool is None:
+            return
 
         try:
             while True:
-- 
2.43.0


From 223f1ca6ae63ab90cc4387232612f8b457ebeb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 21/36] fix: refresh recency on overwrite and keep a value
 stored again

---
 mysockpool/recently_used_container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysockpool/recently_used_container.py b/mysockpool/recently_used_container.py
index 5d3f69f..e5b2575 100644
--- a/mysockpool/recently_used_container.py
+++ b/mysockpool/recently_used_container.py
@@ -59,8 +59,11 @@ class RecentlyUsedContainer(MutableMapping):
         evicted_value = _Null
         with self.lock:
             # Possibly evict the existing value of 'key'
-            evicted_value = self._container.get(key, _Null)
+            evicted_value = self._container.pop(key, _Null)
             self._container[key] = value
+            if evicted_value is value:
+                # stored again, still held
+                evicted_value = _Null
 
             # If we didn't evict an existing value, we might have to evict the
             # least recently used item from the beginning of the container.
-- 
2.43.0


From 6c1a9fe7bd89b8ec99dbffb86e68f23b89eedc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 22/36] fix: raise instead of looping when a stream ends early

---
 mysockpool/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index a7bc2a9..d2ca229 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -71,6 +71,8 @@ class SocketConnection(object):
         while read < size:
             wait_for_read(self.sock)
             bs = self.sock.recv(size - read)
+            if not bs:
+                raise EOFError("connection closed by peer")
             buf.write(bs)
             read += len(bs)
         return buf.getvalue()
-- 
2.43.0


From e1b9148d22baa0a0284e8a8a20e6b706979127d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 23/36] fix: send all data over a non-blocking pooled
 connection

---
 mysockpool/connection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index d2ca229..2da46a0 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -21,6 +21,7 @@
    File Name : connection.py
 """
 import socket
+import time
 from collections import namedtuple
 from io import BytesIO
 
@@ -58,9 +59,15 @@ class SocketConnection(object):
         wait_for_write(self.sock)
         return self.sock.send(*args, **kw)
 
-    def sendall(self, *args, **kw):
-        wait_for_write(self.sock)
-        return self.sock.sendall(*args, **kw)
+    def sendall(self, data, flags=0, timeout=None):
+        # the socket is non-blocking, it may accept only a part of the data at once
+        deadline = None if timeout is None else time.time() + timeout
+        view = memoryview(data)
+        while len(view) > 0:
+            remaining = None if deadline is None else max(0, deadline - time.time())
+            if not wait_for_write(self.sock, remaining):
+                raise socket.timeout("send timed out")
+            view = view[self.sock.send(view, flags):]
 
     def recv(self, *args, **kw):
         return self.sock.recv(*args, **kw)
-- 
2.43.0


From d3c8d4948adbcc9736627d08e92cc650adc05750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 24/36] fix: raise when the blocking client cannot send a
 request

---
 anthunder/client/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 46ab811..86dd039 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -71,17 +71,24 @@ class Client(_BaseClient):
         p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)
         for i in range(3):
             # try three times, to avoid connection failure
+            conn = None
             try:
                 conn = self._get_pool(interface).get_conn()
                 conn.send(p.to_stream())
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
+                if conn:
+                    conn.close()
+                if i == 2:
+                    raise
                 continue
             except Exception as e:
                 logger.error("Call to interface {} failed, requiest_id: {}, "
                              "retried: {}, reason: {}".format(interface, p.request_id, i, e))
-                break
+                if conn:
+                    conn.close()
+                raise
             else:
                 break
         logger.debug("Called interface {}, request_id: {}".format(interface, p.request_id))
-- 
2.43.0


From d81683e4f4432042099f7501e76a7caa4fab0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 25/36] fix: send the whole request in the blocking client,
 within its deadline

---
 anthunder/client/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 86dd039..1f1a0bb 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -53,7 +53,7 @@ class Client(_BaseClient):
     """
 
     def _raw_invoke(self, interface, method_name, content, spanctx=None, target_app="", uid="",
-                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, **sofa_headers_extra):
+                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, deadline=None, **sofa_headers_extra):
 
         """
         :param content:
@@ -74,7 +74,7 @@ class Client(_BaseClient):
             conn = None
             try:
                 conn = self._get_pool(interface).get_conn()
-                conn.send(p.to_stream())
+                conn.sendall(p.to_stream(), timeout=deadline - time.time() if deadline else None)
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
@@ -119,7 +119,7 @@ class Client(_BaseClient):
         pkg = BoltResponse
         deadline = time.time() + timeout_ms / 1000 + 1
         req_id, c = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
-                                     spanctx=spanctx, timeout_ms=timeout_ms)
+                                     spanctx=spanctx, timeout_ms=timeout_ms, deadline=deadline)
 
         with DefaultSelector() as sel:
             sel.register(c, EVENT_READ)
-- 
2.43.0


From 3f08b22bac16fabee3e3b8f69932c9e2a13e3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 26/36] fix: end a blocking call at its deadline and when the
 server closes the connection

---
 anthunder/client/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 1f1a0bb..becb941 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -127,13 +127,19 @@ class Client(_BaseClient):
             resp_bytes = b''
             header = None
             while len(resp_bytes) < total_size:
-                ready = sel.select(timeout=deadline - time.time())
+                remaining = deadline - time.time()
+                ready = remaining > 0 and sel.select(timeout=remaining)
                 if not ready:
                     # timeout
                     c.close()
                     raise TimeoutError('Sync call timeout')
                 for key, event in ready:
-                    resp_bytes += key.fileobj.recv(total_size - len(resp_bytes))
+                    bs = key.fileobj.recv(total_size - len(resp_bytes))
+                    if not bs:
+                        # closed by the server before the response is complete
+                        c.close()
+                        raise ServerError("Connection closed by server")
+                    resp_bytes += bs
                 if not header and len(resp_bytes) >= total_size:
                     header = pkg.bolt_header_from_stream(resp_bytes)
                     body_size = header['class_len'] + header['header_len'] + header['content_len']
-- 
2.43.0


From 9dc57e7d5065d2df42b73b7558f69fba7ebc289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 27/36] fix: record the tags given to start_span

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 025a8c8..371f61a 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -96,7 +96,7 @@ class MyTracer(opentracing.Tracer):
         span.set_operation_name(operation_name)
 
         _tags = tags or dict()
-        for k, v in _tags:
+        for k, v in _tags.items():
             span.set_tag(k, v)
         if start_time:
             span.set_start_time(start_time)
-- 
2.43.0


From c7b99452c60ea5e5e2364c5481d699dccc0fd709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 28/36] fix: record a start time of zero

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 371f61a..94a655b 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -98,7 +98,7 @@ class MyTracer(opentracing.Tracer):
         _tags = tags or dict()
         for k, v in _tags.items():
             span.set_tag(k, v)
-        if start_time:
+        if start_time is not None:
             span.set_start_time(start_time)
 
         return span
-- 
2.43.0


From 4e23cec39a45318f2a3b4af7635a6e582e55cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 29/36] fix: give each follow-up rpc id its own number among
 its siblings

---
 mytracer/_rpc_id.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 07a7877..c91b6a6 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -66,12 +66,10 @@ class RpcId(object):
         return obj
 
     def _new_follows_from(self):
-        obj = self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
         if self._parent:
             # a follows up span is a sibling span, means it is a child span of parent
-            self._parent._child_count += 1
-            obj._parent = self._parent
-        return obj
+            return self._parent._new_child_of()
+        return self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
 
     def new_by_reference_type(self, ref_type):
         return getattr(self, '_new_' + ref_type)()
-- 
2.43.0


From e13fc09fcf40c7d5e60ed8b0cd3c426825da50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 30/36] fix: reject header text that is not valid UTF-8 with
 the decode error

---
 anthunder/protocol/_sofa_header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index f253a76..62efe60 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -80,7 +80,10 @@ def _bytes_to_str(b, coding='utf-8'):
         if n > len(b):  # pragma: no cover
             # incomplete bytes
             raise DecodeError('decoding bytes to str failed, not enough length')
-        ret.append(b[4: n].decode(coding))
+        try:
+            ret.append(b[4: n].decode(coding))
+        except UnicodeDecodeError as e:
+            raise DecodeError(e)
         b = b[n:]
 
     return ret
-- 
2.43.0


From 2cc275775903f25e1a3e169506b2da786d9072c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 31/36] fix: encode requests with a timeout given as float

---
 anthunder/protocol/_request_pkg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/protocol/_request_pkg.py b/anthunder/protocol/_request_pkg.py
index 91796b5..2cb35ea 100644
--- a/anthunder/protocol/_request_pkg.py
+++ b/anthunder/protocol/_request_pkg.py
@@ -48,4 +48,4 @@ class BoltRequest(BoltPackage):
     @classmethod
     def new_request(cls, header, content, ptype=PTYPE.REQUEST, timeout_ms=None):
         return cls(header, content, ptype=ptype, cmdcode=CMDCODE.REQUEST,
-                   request_id=next(RequestId), timeout=timeout_ms or -1)
+                   request_id=next(RequestId), timeout=int(timeout_ms or -1))
-- 
2.43.0


From 95ded21bd7e4d6321ce93ffcf4f98e872a0caf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 32/36] fix: expand trace context items named like class
 attributes

---
 anthunder/protocol/_rpc_trace_context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anthunder/protocol/_rpc_trace_context.py b/anthunder/protocol/_rpc_trace_context.py
index 046514f..0380974 100644
--- a/anthunder/protocol/_rpc_trace_context.py
+++ b/anthunder/protocol/_rpc_trace_context.py
@@ -30,8 +30,8 @@ class RpcTraceContext(object):
     prefix = "rpc_trace_context."
 
     def __init__(self, **kwargs):
-        for k, v in kwargs.items():
-            setattr(self, k, v)
+        # not by setattr, items may be named like attributes of this class
+        self.__dict__.update(kwargs)
 
     def expand(self):
-        return {self.prefix + k: str(v) for k, v in self.__dict__.items()}
+        return {type(self).prefix + k: str(v) for k, v in self.__dict__.items()}
-- 
2.43.0


From a6354e1af930c6ad075706cf3e98bacf74adb41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 33/36] fix: expand trace context items whatever their names

---
 anthunder/protocol/_rpc_trace_context.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/anthunder/protocol/_rpc_trace_context.py b/anthunder/protocol/_rpc_trace_context.py
index 0380974..04d737b 100644
--- a/anthunder/protocol/_rpc_trace_context.py
+++ b/anthunder/protocol/_rpc_trace_context.py
@@ -30,8 +30,14 @@ class RpcTraceContext(object):
     prefix = "rpc_trace_context."
 
     def __init__(self, **kwargs):
-        # not by setattr, items may be named like attributes of this class
-        self.__dict__.update(kwargs)
+        # kept apart from the attributes of this class, items may be named alike
+        self._items = kwargs
+
+    def __getattr__(self, name):
+        try:
+            return self.__dict__['_items'][name]
+        except KeyError:
+            raise AttributeError(name)
 
     def expand(self):
-        return {type(self).prefix + k: str(v) for k, v in self.__dict__.items()}
+        return {self.prefix + k: str(v) for k, v in self._items.items()}
-- 
2.43.0


From c183fbe0a3020bbe442d2cdf9527ba538da9a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 34/36] fix: close connections given back or taken while the
 pool is being closed

---
 mysockpool/connection_pool.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 498ced9..1aa6875 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -116,6 +116,9 @@ class ConnectionPool(object):
                 self.put_conn(self._new_conn())
 
         except AttributeError:  # self.pool is None
+            if conn:
+                # taken while the pool was being closed
+                conn.close()
             raise ClosedPoolError(self, "Pool is closed.")
 
         except queue.Empty:
@@ -150,7 +153,9 @@ class ConnectionPool(object):
         If the pool is closed, then the connection will be closed and discarded.
         """
         try:
-            self.pool.put(conn, block=False)
+            with self._lock:
+                # not into a pool which is being closed
+                self.pool.put(conn, block=False)
             return  # Everything is dandy, done.
         except AttributeError:
             # self.pool is None.
@@ -172,7 +177,8 @@ class ConnectionPool(object):
         Close all pooled connections and disable the pool.
         """
         # Disable access to the pool
-        old_pool, self.pool = self.pool, None
+        with self._lock:
+            old_pool, self.pool = self.pool, None
         if old_pool is None:
             return
 
-- 
2.43.0


From e62627ebb20eba6f371c387670177f395da4f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 35/36] fix: answer a request whose service exits or is
 cancelled

---
 anthunder/listener/aio_listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 57db523..d602e81 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -142,7 +142,7 @@ class AioListener(BaseListener):
             await self._write_msg(writer,
                                        FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
             return
-        except Exception:
+        except (Exception, asyncio.CancelledError, SystemExit):
             await self._write_msg(writer,
                                        FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
             return
@@ -157,7 +157,7 @@ class AioListener(BaseListener):
             logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.TIMEOUT).to_stream())
             return
-        except Exception:
+        except (Exception, SystemExit):
             logger.error(traceback.format_exc())
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
-- 
2.43.0


From 463fb6746376ab8894ecf5eeeb96f9ea0d0cc55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 36/36] fix: answer a request whose service method raises
 StopIteration

---
 anthunder/listener/aio_listener.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index d602e81..851add2 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -71,10 +71,18 @@ class AioThreadpoolRequestHandler(BaseHandler):
             logger.error("No such method[{}]".format(method))
             raise NoProcessorError("No such method[{}]".format(method)) from e
 
-        future = self.executor.submit(func, body)
+        future = self.executor.submit(self._call, func, body)
         logger.info("biz request submitted to function({})".format(func))
         return future
 
+    @staticmethod
+    def _call(func, body):
+        try:
+            return func(body)
+        except StopIteration as e:
+            # a StopIteration cannot be passed on by an asyncio future
+            raise RuntimeError("service raised StopIteration") from e
+
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         """
         register interface: service_cls relationship
-- 
2.43.0

