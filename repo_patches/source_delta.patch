From 73e2449e07f5eb958da15590a3ac7d9cc9dbca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 01/37] fix: AioClient.invoke_oneway sends a one-way request

The frame was marked as a two-way request, so the server answered it and the
client kept waiting for the answer.
---
 anthunder/client/aio_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 3fef513..0519c56 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -73,7 +73,7 @@ class AioClient(_BaseClient):
 
     def invoke_oneway(self, interface, method, content, *, spanctx, **headers):
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=-1)
+        pkg = BoltRequest.new_request(header, content, ptype=PTYPE.ONEWAY, timeout_ms=-1)
         asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
 
     def invoke_sync(self, interface, method, content, *, spanctx, timeout_ms, **headers):
-- 
2.43.0


From 65fafa2b8eba7fa21891dfd38d12c3a28f0f0972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 02/37] fix: invalid text in a sofa header raises DecodeError

UnicodeDecodeError escaped, so the listener dropped the connection with UNKNOWN
instead of answering CODEC_EXCEPTION.
---
 anthunder/protocol/_sofa_header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index f253a76..62efe60 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -80,7 +80,10 @@ def _bytes_to_str(b, coding='utf-8'):
         if n > len(b):  # pragma: no cover
             # incomplete bytes
             raise DecodeError('decoding bytes to str failed, not enough length')
-        ret.append(b[4: n].decode(coding))
+        try:
+            ret.append(b[4: n].decode(coding))
+        except UnicodeDecodeError as e:
+            raise DecodeError(e)
         b = b[n:]
 
     return ret
-- 
2.43.0


From 9d7137112da07c37068762e14663df00f543ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 03/37] fix: AioListener consumes the whole frame before
 decoding its header map

When decoding failed the content was left in the stream and taken for the next
frame.
---
 anthunder/listener/aio_listener.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 106a43e..65448c7 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -207,9 +207,10 @@ class AioListener(BaseListener):
                 bs = await reader.readexactly(header['header_len'])
                 logger.debug("received sofa header({})".format(bs))
 
-                sofa_header = SofaHeader.from_bytes(bs)
+                # read the whole frame before decoding, the stream must stay in sync if decoding fails
                 body = await reader.readexactly(header['content_len'])
                 logger.debug("received sofa body({})".format(body))
+                sofa_header = SofaHeader.from_bytes(bs)
 
                 if cmdcode == CMDCODE.HEARTBEAT:
                     logger.info("received heartbeat, request_id={}".format(header['request_id']))
-- 
2.43.0


From c939edcfcc807aa74d6e9e8aaf02171875760d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 04/37] fix: AioListener does not answer the previous request
 again on EOF

At end of stream the header of the last complete request was still around, and a
second response (CONNECTION_CLOSED) was sent for it.
---
 anthunder/listener/aio_listener.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 65448c7..1ed55a5 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -185,6 +185,7 @@ class AioListener(BaseListener):
         logger.info("connection created.")
         first_req = True
         while True:
+            header = None
             try:
                 try:
                     fixed_header_bs = await reader.readexactly(BoltRequest.bolt_header_size())
-- 
2.43.0


From a89bf2a4b6df3b48e6c99ee1cb1fb6a9a4c0e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 05/37] fix: AioListener answers requests with a broken trace
 context

Extraction failed outside of the try block and the request got no response.
---
 anthunder/listener/aio_listener.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 1ed55a5..823590b 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -135,9 +135,8 @@ class AioListener(BaseListener):
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
-        spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
-
         try:
+            spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
             await self._write_msg(writer,
-- 
2.43.0


From a3c42bbac07dae49b3972f3a475f247c08b95abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 06/37] fix: AioListener answers empty and unsendable results

An empty result (a protobuf message with default values) got no response, nor did
a result which is not bytes.
---
 anthunder/listener/aio_listener.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 823590b..1661127 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -162,14 +162,15 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result:
-            header = dict()
-            tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
-            pkg = BoltResponse.response_to(result, request_id=request_id)
-            try:
-                await self._write_msg(writer, pkg.to_stream())
-            except Exception:
-                logger.error(traceback.format_exc())
+        try:
+            msg = BoltResponse.response_to(result, request_id=request_id).to_stream()
+        except Exception:
+            logger.error(traceback.format_exc())
+            msg = FailResponse.response_to(request_id, RESPSTATUS.SERVER_SERIAL_EXCEPTION).to_stream()
+        try:
+            await self._write_msg(writer, msg)
+        except Exception:
+            logger.error(traceback.format_exc())
 
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
-- 
2.43.0


From 8918a4a0f0ac642108175a7b852db4e234482bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 07/37] fix: AioListener never answers a one-way request

A one-way request which could not be dispatched got a failure response which the
protocol does not allow and no client expects.
---
 anthunder/listener/aio_listener.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 1661127..27a5bb7 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -122,16 +122,20 @@ class AioListener(BaseListener):
 
     async def _dispatch(self, call_type, request_id, sofa_header, body, *, timeout_ms, writer):
         """send request to handler"""
+
+        async def _fail(status):
+            # nobody waits for the response of a oneway request
+            if PTYPE.ONEWAY != call_type:
+                await self._write_msg(writer, FailResponse.response_to(request_id, status).to_stream())
+
         service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
         if not service:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await _fail(RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing service name in sofa header [{}]".format(sofa_header))
             return
         method = sofa_header.get('sofa_head_method_name')
         if not method:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await _fail(RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
@@ -139,12 +143,10 @@ class AioListener(BaseListener):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
+            await _fail(RESPSTATUS.NO_PROCESSOR)
             return
         except Exception:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
+            await _fail(RESPSTATUS.SERVER_EXCEPTION)
             return
         if PTYPE.ONEWAY == call_type:
             # Just return future
@@ -230,14 +232,16 @@ class AioListener(BaseListener):
                                                      timeout_ms=header['timeout'], writer=writer))
             except ClientError as e:
                 logger.error(str(e) + " returning CLIENT_SEND_ERROR")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                if PTYPE.ONEWAY != header['ptype']:
+                    await self._write_msg(writer, FailResponse.response_to(header['request_id'],
+                                                                           RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
                 continue
 
             except ProtocolError as e:
                 logger.error(str(e) + " returning CODEC_EXCEPTION")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CODEC_EXCEPTION).to_stream())
+                if PTYPE.ONEWAY != header['ptype']:
+                    await self._write_msg(writer, FailResponse.response_to(header['request_id'],
+                                                                           RESPSTATUS.CODEC_EXCEPTION).to_stream())
                 continue
 
             except EOFError as e:
-- 
2.43.0


From e0b6789996a735074e4f00d73f12bffd6fa2d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 08/37] fix: every listener has its own interface registry

The registry was a class attribute: all listeners of a process served and
published the interfaces registered on any of them.
---
 anthunder/listener/aio_listener.py  | 1 +
 anthunder/listener/base_listener.py | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 27a5bb7..3557936 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -52,6 +52,7 @@ class AioThreadpoolRequestHandler(BaseHandler):
     MAX_WORKER = 30
 
     def __init__(self):
+        super(AioThreadpoolRequestHandler, self).__init__()
         self.executor = ThreadPoolExecutor(max_workers=self.MAX_WORKER)
         self.local = threading.local()
         self.lock = RLock()
diff --git a/anthunder/listener/base_listener.py b/anthunder/listener/base_listener.py
index a5e0ac3..79e05d3 100644
--- a/anthunder/listener/base_listener.py
+++ b/anthunder/listener/base_listener.py
@@ -40,9 +40,11 @@ class BaseService(object):
 
 class BaseHandler(object):
     """Handle bolt request"""
-    # stores interface:
-    #   "interface": (function, protobuf_cls)
-    interface_mapping = dict()
+
+    def __init__(self):
+        # stores interface:
+        #   "interface": (function, protobuf_cls)
+        self.interface_mapping = dict()
 
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         raise NotImplementedError()
-- 
2.43.0


From ba7c51bab5d8b08586ae178c5b077176c87f0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 09/37] fix: every SockListener dispatches to its own handler

The handler was stored on the shared request handler class, so the last created
listener's services were used by all.
---
 anthunder/listener/sock_listener.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 5942867..4683e97 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -145,9 +145,9 @@ class SockListener(BaseListener):
 
     def __init__(self, *args, **kwargs):
         super(SockListener, self).__init__(*args, **kwargs)
-        # inject service_handler
-        SockBoltHandler.service_handler = self.handler
-        self.server = ThreadingTCPServer(self.address, SockBoltHandler)
+        # inject service_handler, in a class of its own as the server instantiates the class for each connection
+        handler_cls = type('SockBoltHandler', (SockBoltHandler,), dict(service_handler=self.handler))
+        self.server = ThreadingTCPServer(self.address, handler_cls)
 
     def run_forever(self):
         self.server.serve_forever()
-- 
2.43.0


From 1776390980dd563d83ed559ec3fc6fe5c72b41e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 10/37] fix: SockListener stops reading at end of stream

It looped forever when the peer disconnected before its request was complete.
---
 anthunder/listener/sock_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 4683e97..e9947a3 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -85,7 +85,10 @@ class SockBoltHandler(StreamRequestHandler):
     def _readexactly(self, bs_cnt):
         bs = b''
         while len(bs) < bs_cnt:
-            bs += self.rfile.read(bs_cnt - len(bs))
+            read = self.rfile.read(bs_cnt - len(bs))
+            if not read:
+                raise EOFError("Connection closed by remote, {} bytes missing".format(bs_cnt - len(bs)))
+            bs += read
         return bs
 
     def handle(self):
-- 
2.43.0


From 781ce5a73dc0f827783165765b8d0a4a7a76beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 11/37] fix: SockListener never answers a one-way request

---
 anthunder/listener/sock_listener.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index e9947a3..3ca8798 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -30,7 +30,7 @@ from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
-from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from anthunder.protocol import BoltResponse
 
 from .base_listener import BaseListener, BaseHandler, NoProcessorError
@@ -118,20 +118,24 @@ class SockBoltHandler(StreamRequestHandler):
 
             service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
             if not service:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                if call_type != PTYPE.ONEWAY:
+                    self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                    self.wfile.flush()
                 logger.error("Missing service name in sofa header [{}]".format(sofa_header))
                 return
             method = sofa_header.get('sofa_head_method_name')
             if not method:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                if call_type != PTYPE.ONEWAY:
+                    self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                    self.wfile.flush()
                 logger.error("Missing method name in sofa header [{}]".format(sofa_header))
                 return
 
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             # call servicehandler
             ret = self.service_handler.handle_request(spanctx, service, method, body)
+            if call_type == PTYPE.ONEWAY:
+                return
             self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
             self.wfile.flush()
 
-- 
2.43.0


From 7f399db5e9ddbd61f81d4ee217a333d7eb1d878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 12/37] fix: AioListener reports a failing service constructor
 as SERVER_EXCEPTION

An AttributeError raised by the constructor was taken for a missing method.
---
 anthunder/listener/aio_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 3557936..7bf8c93 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -65,8 +65,8 @@ class AioThreadpoolRequestHandler(BaseHandler):
         except KeyError as e:
             logger.error("Service not found in interface registry: [{}]".format(service))
             raise NoProcessorError("Service not found in interface registry: [{}]".format(service)) from e
+        svc_obj = ServiceCls(spanctx)
         try:
-            svc_obj = ServiceCls(spanctx)
             func = getattr(svc_obj, method)
         except AttributeError as e:
             logger.error("No such method[{}]".format(method))
-- 
2.43.0


From f5bb5f10fedd93ff27a2124ab152c6ccb885a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 13/37] fix: AioListener survives any exception raised by a
 service

SystemExit ended the event loop and with it the whole listener, StopIteration left
the request without response, and a TimeoutError or CancelledError of the service
was reported as the request's own timeout.
---
 anthunder/listener/aio_listener.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 7bf8c93..00123d6 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -39,7 +39,7 @@ from concurrent.futures import ThreadPoolExecutor
 
 from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
-from anthunder.exceptions import ClientError
+from anthunder.exceptions import ClientError, ServerError
 from anthunder.protocol import BoltRequest, SofaHeader, BoltResponse
 from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from anthunder.protocol.exceptions import ProtocolError
@@ -72,10 +72,18 @@ class AioThreadpoolRequestHandler(BaseHandler):
             logger.error("No such method[{}]".format(method))
             raise NoProcessorError("No such method[{}]".format(method)) from e
 
-        future = self.executor.submit(func, body)
+        future = self.executor.submit(self._run, func, body)
         logger.info("biz request submitted to function({})".format(func))
         return future
 
+    @staticmethod
+    def _run(func, body):
+        try:
+            return func(body)
+        except BaseException as e:
+            # SystemExit, StopIteration, CancelledError, TimeoutError... mean something else to the event loop
+            raise ServerError("service raised {!r}".format(e)) from e
+
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         """
         register interface: service_cls relationship
@@ -146,7 +154,7 @@ class AioListener(BaseListener):
         except NoProcessorError:
             await _fail(RESPSTATUS.NO_PROCESSOR)
             return
-        except Exception:
+        except (Exception, SystemExit):
             await _fail(RESPSTATUS.SERVER_EXCEPTION)
             return
         if PTYPE.ONEWAY == call_type:
-- 
2.43.0


From e9632dbaf10ec10191df95c62d130fa72e4eab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 14/37] fix: AioClient accepts a response which arrives before
 the request is flushed

The call failed with KeyError and the response was lost.
---
 anthunder/client/aio_client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 0519c56..a103b32 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -199,7 +199,7 @@ class AioClient(_BaseClient):
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-        self.request_mapping[request.request_id] = asyncio.Event()
+        event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
             await _send()
         except PyboltError:
@@ -212,10 +212,11 @@ class AioClient(_BaseClient):
             return
 
         if request.ptype == PTYPE.ONEWAY:
-            self.request_mapping.pop(request.request_id)
+            self.request_mapping.pop(request.request_id, None)
             return
 
-        return self.request_mapping[request.request_id]
+        # the response may have arrived already, in which case the event is not in the mapping any more
+        return event
 
     async def _recv_response(self, reader, writer):
         """
-- 
2.43.0


From 7237cf206dfaea64f76e34605951bbc9fb006bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 15/37] fix: AioClient does not drop the connection when a
 request can't be encoded

The encoding error was handled like a connection failure: the shared connection was
closed three times over, losing the responses of all calls in flight.
---
 anthunder/client/aio_client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index a103b32..37539dc 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -183,13 +183,16 @@ class AioClient(_BaseClient):
         """
         assert isinstance(request, BoltRequest)
 
+        # a request which can't be encoded must not be taken for a connection failure
+        stream = request.to_stream()
+
         async def _send(retry=3):
             if retry <= 0:
                 raise PyboltError("send request failed.")
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
-                writer.write(request.to_stream())
+                writer.write(stream)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
-- 
2.43.0


From 0fd8d7eededc47ae2ae495d078d970d75b4969bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 16/37] fix: AioClient reports the reason when a request can't
 be sent

invoke_async's future resolved to None as if the call had succeeded, and invoke_sync
failed with an AttributeError on that None.
---
 anthunder/client/aio_client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 37539dc..a2fe402 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -207,12 +207,12 @@ class AioClient(_BaseClient):
             await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
-            self.request_mapping.pop(request.request_id)
-            return
+            self.request_mapping.pop(request.request_id, None)
+            raise
         except Exception:
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id)
-            return
+            self.request_mapping.pop(request.request_id, None)
+            raise
 
         if request.ptype == PTYPE.ONEWAY:
             self.request_mapping.pop(request.request_id, None)
-- 
2.43.0


From 0fff819721b759e22e8a078d1f4fca26e585656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 17/37] fix: AioClient lets all requests retry when they fail
 on the same connection

The second one to fail hit a KeyError or dropped the new connection from the
mapping. The dial lock stays in place, removing it while others wait for it allowed
several connections to be opened.
---
 anthunder/client/aio_client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index a2fe402..b0a0bd2 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -189,7 +189,7 @@ class AioClient(_BaseClient):
         async def _send(retry=3):
             if retry <= 0:
                 raise PyboltError("send request failed.")
-            readtask, writer = await self._get_connection(address)
+            readtask, writer = conn = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
                 writer.write(stream)
@@ -197,8 +197,9 @@ class AioClient(_BaseClient):
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
-                self.connection_mapping.pop(address)
-                self._pending_dial.pop(address)
+                # other requests fail on the same connection, one of them may have replaced it already
+                if self.connection_mapping.get(address) is conn:
+                    self.connection_mapping.pop(address)
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-- 
2.43.0


From adb022405403b8006496d17c1ae71e7a972acfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 18/37] fix: AioClient reports error responses as ServerError
 and keeps heartbeat responses

A call answered with an error status failed with a KeyError, and so did every
heartbeat, which ended the heartbeat timer. A call answered with a response which
can't be decoded was never woken up.
---
 anthunder/client/aio_client.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index b0a0bd2..511aead 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -172,7 +172,15 @@ class AioClient(_BaseClient):
             logger.debug("no related event, should be a async/oneway call, return now")
             return
         await event.wait()
-        return self.response_mapping.pop(request.request_id)
+        response = self.response_mapping.pop(request.request_id, None)
+        if response is None:
+            raise PyboltError("no valid response to request {}".format(request.request_id))
+        if request.cmdcode != CMDCODE.HEARTBEAT:
+            if response.cmdcode != CMDCODE.RESPONSE:
+                raise ServerError("wrong cmdcode:[{}]".format(response.cmdcode))
+            if response.respstatus != RESPSTATUS.SUCCESS:
+                raise ServerError.from_statuscode(response.respstatus)
+        return response
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -229,21 +237,18 @@ class AioClient(_BaseClient):
         :return:
         """
         while True:
-            pkg = None
+            request_id = None
             try:
                 fixed_header_bs = await reader.readexactly(BoltResponse.bolt_header_size())
                 header = BoltResponse.bolt_header_from_stream(fixed_header_bs)
+                request_id = header['request_id']
                 bs = await reader.readexactly(header['class_len'] + header['header_len'] + header['content_len'])
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
-                if pkg.cmdcode == CMDCODE.HEARTBEAT:
-                    continue
-                elif pkg.cmdcode == CMDCODE.REQUEST:
+                if pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
                     raise ServerError("wrong cmdcode:[{}]".format(pkg.cmdcode))
-                if pkg.respstatus != RESPSTATUS.SUCCESS:
-                    raise ServerError.from_statuscode(pkg.respstatus)
                 if pkg.request_id not in self.request_mapping:
                     continue
                 self.response_mapping[pkg.request_id] = pkg
@@ -261,5 +266,5 @@ class AioClient(_BaseClient):
             finally:
                 with suppress(AttributeError, KeyError):
                     # wake up the coro
-                    event = self.request_mapping.pop(pkg.request_id)
+                    event = self.request_mapping.pop(request_id)
                     event.set()
-- 
2.43.0


From 5016eab24df74b06a1c96acaa93599c932bc64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 19/37] fix: AioClient's heartbeat timer survives failed and
 unanswered heartbeats

---
 anthunder/client/aio_client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 511aead..da85ec8 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -122,7 +122,10 @@ class AioClient(_BaseClient):
         """Invoke heartbeat periodly"""
         while True:
             await asyncio.sleep(interval)
-            await self.invoke_heartbeat(address)
+            try:
+                await asyncio.wait_for(self.invoke_heartbeat(address), interval)
+            except asyncio.TimeoutError:
+                logger.error("heartbeat to {} not answered".format(address))
 
     async def invoke_heartbeat(self, address):
         """
@@ -132,7 +135,11 @@ class AioClient(_BaseClient):
         TODO: to break the connection if server response wrongly
         """
         pkg = HeartbeatRequest.new_request()
-        resp = await self.invoke(pkg, address=address)
+        try:
+            resp = await self.invoke(pkg, address=address)
+        except Exception as e:
+            logger.error("heartbeat request({}) failed: {}".format(pkg.request_id, e))
+            return False
         if resp.request_id != pkg.request_id:
             logger.error("heartbeat response request_id({}) mismatch with request({}).".format(resp.request_id,
                                                                                                pkg.request_id))
-- 
2.43.0


From e61c4d4868eae1e56f9bca1bb779c11efc6077e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 20/37] fix: AioClient fails the calls in flight when their
 connection is lost

They waited forever: futures of invoke_async never completed. The dead connection
was also kept, and a request written before it was noticed was lost silently.
---
 anthunder/client/aio_client.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index da85ec8..e1a96cb 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -54,6 +54,7 @@ class AioClient(_BaseClient):
         self.request_mapping = dict()  # request_id: event
         self.response_mapping = dict()  # request_id: response_pkg
         self.connection_mapping = dict()  # address: (reader_coro, writer)
+        self.request_writer = dict()  # request_id: writer the request was sent to
         self.loop_thread = self._init()
         self._pending_dial = dict()  # address: (asyncio.Lock)
 
@@ -174,12 +175,16 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        event = await self._send_request(request, address=address)
-        if event is None:
-            logger.debug("no related event, should be a async/oneway call, return now")
-            return
-        await event.wait()
-        response = self.response_mapping.pop(request.request_id, None)
+        try:
+            event = await self._send_request(request, address=address)
+            if event is None:
+                logger.debug("no related event, should be a async/oneway call, return now")
+                return
+            await event.wait()
+            response = self.response_mapping.get(request.request_id)
+        finally:
+            for mapping in (self.request_mapping, self.request_writer, self.response_mapping):
+                mapping.pop(request.request_id, None)
         if response is None:
             raise PyboltError("no valid response to request {}".format(request.request_id))
         if request.cmdcode != CMDCODE.HEARTBEAT:
@@ -209,8 +214,12 @@ class AioClient(_BaseClient):
                 await writer.drain()  # avoid back pressure
                 writer.write(stream)
                 await writer.drain()
+                self.request_writer[request.request_id] = writer
+                if readtask.done() and not event.is_set():
+                    raise ConnectionResetError("connection lost while sending")
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
+                self.request_writer.pop(request.request_id, None)
                 readtask.cancel()
                 # other requests fail on the same connection, one of them may have replaced it already
                 if self.connection_mapping.get(address) is conn:
@@ -275,3 +284,12 @@ class AioClient(_BaseClient):
                     # wake up the coro
                     event = self.request_mapping.pop(request_id)
                     event.set()
+
+        # nothing will be received any more: drop the connection and wake up the coros waiting for a response from it
+        writer.transport.abort()
+        for address, (_, w) in list(self.connection_mapping.items()):
+            if w is writer:
+                self.connection_mapping.pop(address)
+        for request_id, w in list(self.request_writer.items()):
+            if w is writer and request_id in self.request_mapping:
+                self.request_mapping.pop(request_id).set()
-- 
2.43.0


From 1d55ecffafee93b61d41f217e8fc66e98897facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 21/37] fix: AioClient does not send a request again which has
 been answered

---
 anthunder/client/aio_client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index e1a96cb..c15e401 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -224,6 +224,9 @@ class AioClient(_BaseClient):
                 # other requests fail on the same connection, one of them may have replaced it already
                 if self.connection_mapping.get(address) is conn:
                     self.connection_mapping.pop(address)
+                if event.is_set():
+                    # the peer responded and hung up before it had read the whole request
+                    return
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-- 
2.43.0


From 9354b6d2e68fd4a080ab7ace66b315f81268097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 22/37] fix: requests can be made with a float timeout

The clients accept int or float milliseconds, but encoding a float failed.
---
 anthunder/protocol/_request_pkg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_request_pkg.py b/anthunder/protocol/_request_pkg.py
index 91796b5..f991d06 100644
--- a/anthunder/protocol/_request_pkg.py
+++ b/anthunder/protocol/_request_pkg.py
@@ -21,6 +21,7 @@
    Change Activity:
         version0 : 2018/4/28 11:39 by jiaqi.hjq  init
 """
+import math
 import struct
 from anthunder.helpers.request_id import RequestId
 from .constants import PTYPE, CMDCODE
@@ -48,4 +49,4 @@ class BoltRequest(BoltPackage):
     @classmethod
     def new_request(cls, header, content, ptype=PTYPE.REQUEST, timeout_ms=None):
         return cls(header, content, ptype=ptype, cmdcode=CMDCODE.REQUEST,
-                   request_id=next(RequestId), timeout=timeout_ms or -1)
+                   request_id=next(RequestId), timeout=math.ceil(timeout_ms or -1))
-- 
2.43.0


From 67ae4a5a3f3275c55c31505e48c9ad3d51f7dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 23/37] fix: Client.invoke_sync fails when the connection is
 closed by the server

It looped forever, without ever looking at its deadline, as a socket at end of
stream is always readable.
---
 anthunder/client/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 46ab811..fb7230a 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -126,7 +126,11 @@ class Client(_BaseClient):
                     c.close()
                     raise TimeoutError('Sync call timeout')
                 for key, event in ready:
-                    resp_bytes += key.fileobj.recv(total_size - len(resp_bytes))
+                    received = key.fileobj.recv(total_size - len(resp_bytes))
+                    if not received:
+                        c.close()
+                        raise ServerError("Connection closed before the response was complete")
+                    resp_bytes += received
                 if not header and len(resp_bytes) >= total_size:
                     header = pkg.bolt_header_from_stream(resp_bytes)
                     body_size = header['class_len'] + header['header_len'] + header['content_len']
-- 
2.43.0


From ee9ba28b42f62c577f279422218d3385c59ee246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 24/37] fix: Client sends large requests completely

Only what fitted into the socket buffer was sent.
---
 anthunder/client/client.py |  2 +-
 mysockpool/connection.py   | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index fb7230a..14a1472 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -73,7 +73,7 @@ class Client(_BaseClient):
             # try three times, to avoid connection failure
             try:
                 conn = self._get_pool(interface).get_conn()
-                conn.send(p.to_stream())
+                conn.sendall(p.to_stream(), timeout=timeout_ms / 1000 + 1 if timeout_ms else None)
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index a7bc2a9..72e7973 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -21,6 +21,7 @@
    File Name : connection.py
 """
 import socket
+import time
 from collections import namedtuple
 from io import BytesIO
 
@@ -58,9 +59,14 @@ class SocketConnection(object):
         wait_for_write(self.sock)
         return self.sock.send(*args, **kw)
 
-    def sendall(self, *args, **kw):
-        wait_for_write(self.sock)
-        return self.sock.sendall(*args, **kw)
+    def sendall(self, data, timeout=None):
+        """The socket may be non-blocking: wait until it is writable, as long as there is something left to send"""
+        deadline = None if timeout is None else time.time() + timeout
+        data = memoryview(data)
+        while data:
+            if not wait_for_write(self.sock, None if deadline is None else max(deadline - time.time(), 0)):
+                raise socket.timeout("timed out")
+            data = data[self.sock.send(data):]
 
     def recv(self, *args, **kw):
         return self.sock.recv(*args, **kw)
-- 
2.43.0


From 03276d66c91426ddfd8c52f06c64dbb9c05b6642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 25/37] fix: SocketConnection.recvexactly stops at end of
 stream

---
 mysockpool/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index 72e7973..2265c5d 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -77,6 +77,8 @@ class SocketConnection(object):
         while read < size:
             wait_for_read(self.sock)
             bs = self.sock.recv(size - read)
+            if not bs:
+                raise EOFError("Connection closed by remote, {} bytes missing".format(size - read))
             buf.write(bs)
             read += len(bs)
         return buf.getvalue()
-- 
2.43.0


From ec31ea453ef094c742e7aa1583f955e6f7966434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 26/37] fix: ConnectionPool counts a new connection under the
 lock which checked the limit

Concurrent borrowers could open more than max_connections, and lose counts.
---
 mysockpool/connection_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 44ce63f..8cadef3 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -83,8 +83,8 @@ class ConnectionPool(object):
                 raise EmptyPoolError(self,
                                      "Pool reached maximum size and no more "
                                      "connections are allowed.")
+            self.num_connections += 1
 
-        self.num_connections += 1
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-- 
2.43.0


From 61fe1ebb85382ed6551b2807b599e2d92f5f5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 27/37] fix: ConnectionPool does not count a connection which
 could not be created

---
 mysockpool/connection_pool.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 8cadef3..37f5f93 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -88,8 +88,12 @@ class ConnectionPool(object):
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-        conn = self.ConnectionCls(self.pool_key)
-        return conn
+        try:
+            return self.ConnectionCls(self.pool_key)
+        except Exception:
+            with self._lock:
+                self.num_connections -= 1
+            raise
 
     def get_conn(self, timeout=None):
         """
-- 
2.43.0


From 555da75c4dbdad84a03a6f86f8767c680855e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 28/37] fix: ConnectionPool.get_conn replaces a dropped
 connection

It closed the dropped connection and returned it.
---
 mysockpool/connection_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 37f5f93..d86f87e 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -130,6 +130,7 @@ class ConnectionPool(object):
             conn.close()
             with self._lock:
                 self.num_connections -= 1
+            conn = None
 
         return conn or self._new_conn()
 
-- 
2.43.0


From 6a608ff8ae5a6f2cbb506cdd6c49af8bf416197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 29/37] fix: closing a ConnectionPool again does nothing

AttributeError, which also kept PoolManager.clear() from closing the other pools.
---
 mysockpool/connection_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index d86f87e..93619f2 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -172,6 +172,8 @@ class ConnectionPool(object):
         """
         # Disable access to the pool
         old_pool, self.pool = self.pool, None
+        if old_pool is None:
+            return  # closed already
 
         try:
             while True:
-- 
2.43.0


From 91616211d8d32ba62a66a3c12064a2870ccc9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 30/37] fix: storing to a key of a RecentlyUsedContainer makes
 it the most recently used

---
 mysockpool/recently_used_container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysockpool/recently_used_container.py b/mysockpool/recently_used_container.py
index 5d3f69f..cd9c5e2 100644
--- a/mysockpool/recently_used_container.py
+++ b/mysockpool/recently_used_container.py
@@ -59,7 +59,8 @@ class RecentlyUsedContainer(MutableMapping):
         evicted_value = _Null
         with self.lock:
             # Possibly evict the existing value of 'key'
-            evicted_value = self._container.get(key, _Null)
+            # (pop it out, so that it moves to the end of the eviction line)
+            evicted_value = self._container.pop(key, _Null)
             self._container[key] = value
 
             # If we didn't evict an existing value, we might have to evict the
-- 
2.43.0


From b6f3e68340b4181ee925f8ce0a97304907d0f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 31/37] fix: spans can be started with tags

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 025a8c8..371f61a 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -96,7 +96,7 @@ class MyTracer(opentracing.Tracer):
         span.set_operation_name(operation_name)
 
         _tags = tags or dict()
-        for k, v in _tags:
+        for k, v in _tags.items():
             span.set_tag(k, v)
         if start_time:
             span.set_start_time(start_time)
-- 
2.43.0


From cbf66a74f73c213aaacce90696ef83f309155adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 32/37] fix: spans of a trace never get the same rpc id

Following any but the last child of a span, or following a span twice, gave an id
which was in use already.
---
 mytracer/_rpc_id.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 07a7877..68fd530 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -22,6 +22,8 @@
         version0 : 2018/5/28 14:59 by jiaqi.hjq  init
 """
 
+import itertools
+
 
 class RpcId(object):
     def __init__(self, *rpcids):
@@ -44,8 +46,9 @@ class RpcId(object):
             if not isinstance(self.rpcids[-1], int):
                 raise TypeError("Illigal span id, last segment must be int, not '{}'.".format(self.rpcids[-1]))
 
-        self._child_count = 0
-        self._parent = None
+        # next(count) is atomic: spans may be derived from the same span in several threads
+        self._children = itertools.count(1)
+        self._siblings = itertools.count(self.rpcids[-1] + 1)
 
     def __str__(self):
         return ".".join(map(str, self.rpcids))
@@ -60,17 +63,14 @@ class RpcId(object):
         return cls(*new_ids)
 
     def _new_child_of(self):
-        self._child_count += 1
-        obj = self.extend_id(self.rpcids, self._child_count)
-        obj._parent = self  # attach a link to parent rpcId
+        obj = self.extend_id(self.rpcids, next(self._children))
+        obj._siblings = self._children  # all children of a span draw from the same numbers
         return obj
 
     def _new_follows_from(self):
-        obj = self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
-        if self._parent:
-            # a follows up span is a sibling span, means it is a child span of parent
-            self._parent._child_count += 1
-            obj._parent = self._parent
+        # a follows up span is a sibling span, means it is a child span of parent
+        obj = self.extend_id(self.rpcids[:-1], next(self._siblings))
+        obj._siblings = self._siblings
         return obj
 
     def new_by_reference_type(self, ref_type):
-- 
2.43.0


From 46689d56766b8770845ae49d6df3a53dbd255f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 33/37] fix: RequestId does not keep every id in memory

---
 anthunder/helpers/request_id.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anthunder/helpers/request_id.py b/anthunder/helpers/request_id.py
index ae66650..7a5f196 100644
--- a/anthunder/helpers/request_id.py
+++ b/anthunder/helpers/request_id.py
@@ -19,10 +19,11 @@
 """
 import logging
 from random import randint
-from itertools import cycle, chain
+from itertools import count
 
 logger = logging.getLogger(__name__)
 
 _max = 0x7fffffff  # 4 bytes signed int
 _start = randint(0, _max)
-RequestId = cycle(chain(range(_start, _max + 1), range(0, _start)))
+# itertools.cycle would keep a copy of every id it has returned
+RequestId = map(_max.__and__, count(_start))
-- 
2.43.0


From 8772ad319b0e5c0c4de79e48c5bb6f18c3a061e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 34/37] fix: ConnectionPool.get_conn does not lose a connection
 when a spare one can't be made

---
 mysockpool/connection_pool.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 93619f2..fb9cf1c 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -112,7 +112,13 @@ class ConnectionPool(object):
             conn = self.pool.get(block=self.block, timeout=timeout)
 
             if self.pool.qsize() < self.min_free_connections:
-                self.put_conn(self._new_conn())
+                try:
+                    self.put_conn(self._new_conn())
+                except EmptyPoolError:
+                    raise
+                except Exception as e:
+                    # the connection just taken can be used all the same
+                    log.warning("Failed to start a spare connection: %r, %s", self.pool_key, e)
 
         except AttributeError:  # self.pool is None
             raise ClosedPoolError(self, "Pool is closed.")
-- 
2.43.0


From cf820577030b6237e347a40b762a2fdf502b674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 35/37] fix: trace entries named prefix or expand reach the
 request's header

---
 anthunder/protocol/_rpc_trace_context.py | 6 +++---
 anthunder/protocol/_sofa_header.py       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anthunder/protocol/_rpc_trace_context.py b/anthunder/protocol/_rpc_trace_context.py
index 046514f..3ee4a6c 100644
--- a/anthunder/protocol/_rpc_trace_context.py
+++ b/anthunder/protocol/_rpc_trace_context.py
@@ -30,8 +30,8 @@ class RpcTraceContext(object):
     prefix = "rpc_trace_context."
 
     def __init__(self, **kwargs):
-        for k, v in kwargs.items():
-            setattr(self, k, v)
+        self.__dict__.update(kwargs)
 
     def expand(self):
-        return {self.prefix + k: str(v) for k, v in self.__dict__.items()}
+        # an entry may be named like an attribute of this class
+        return {RpcTraceContext.prefix + k: str(v) for k, v in self.__dict__.items()}
diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index 62efe60..4b98192 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -128,7 +128,7 @@ class SofaHeader(dict):
         :param sofa_headers_extra:
         :return:
         """
-        rpc_trace_context_expand = RpcTraceContext(**spanctx.baggage).expand()
+        rpc_trace_context_expand = RpcTraceContext.expand(RpcTraceContext(**spanctx.baggage))
 
         kwargs = dict()
         kwargs.update(**sofa_headers_extra)
-- 
2.43.0


From 50971f26dc4dea36b2886355b637eda3e6b45724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 36/37] fix: start_span accepts a start time of 0

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 371f61a..94a655b 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -98,7 +98,7 @@ class MyTracer(opentracing.Tracer):
         _tags = tags or dict()
         for k, v in _tags.items():
             span.set_tag(k, v)
-        if start_time:
+        if start_time is not None:
             span.set_start_time(start_time)
 
         return span
-- 
2.43.0


From 45a4643ad6dc844dbbcbd12618548b72ede3ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 37/37] fix: report a NoProcessorError of a service's
 constructor as server exception, not as missing service

---
 anthunder/listener/aio_listener.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 00123d6..5a015eb 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -65,7 +65,11 @@ class AioThreadpoolRequestHandler(BaseHandler):
         except KeyError as e:
             logger.error("Service not found in interface registry: [{}]".format(service))
             raise NoProcessorError("Service not found in interface registry: [{}]".format(service)) from e
-        svc_obj = ServiceCls(spanctx)
+        try:
+            svc_obj = ServiceCls(spanctx)
+        except NoProcessorError as e:
+            # there is such a service, it is its construction which failed
+            raise ServerError("service construction raised {!r}".format(e)) from e
         try:
             func = getattr(svc_obj, method)
         except AttributeError as e:
-- 
2.43.0

