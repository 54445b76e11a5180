From b69d15e2a5c9cfde307205beaa78218477a33ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 001/115] fix: repeat the Route set of the INVITE in the ACK to
 a negative answer

---
 sippy/SipRequest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 8657bc9..1fb1d50 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -137,6 +137,7 @@ class SipRequest(SipMsg):
                           fr0m = self.getHFBCopy('from'), to = to, \
                           via = self.getHFBCopy('via'), callid = self.getHFBCopy('call-id'), \
                           cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \
+                          routes = self.getHFBCopys('route'), target = self.getTarget(), \
                           user_agent = self.user_agent)
 
     def genCANCEL(self):
-- 
2.43.0


From ac73c07969d0f7e39c0eebc27c907356392f0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 002/115] fix: Do not lose CANCEL's extra headers when it has
 to wait for a provisional response

---
 sippy/SipTransactionManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..f950750 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -454,11 +454,11 @@ class SipTransactionManager(object):
     def cancelTransaction(self, t, extra_headers = None):
         # If we got at least one provisional reply then (state == RINGING)
         # then start CANCEL transaction, otherwise deffer it
+        if extra_headers is not None and t.cancel is not None:
+            t.cancel.appendHeaders(extra_headers)
         if t.state != RINGING:
             t.cancelPending = True
         else:
-            if extra_headers is not None:
-                t.cancel.appendHeaders(extra_headers)
             self.newTransaction(t.cancel, userv = t.userv)
 
     def incomingResponse(self, msg, t, checksum):
-- 
2.43.0


From 1ce7948b772eb4993b09f2f64155d4b6f443a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 003/115] fix: Propagate Proxy-Authenticate challenges of a 407
 instead of crashing

---
 sippy/UacStateTrying.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..477839e 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -128,7 +128,7 @@ class UacStateTrying(UaStateGeneric):
                 if code == 401 and resp.countHFs('www-authenticate') != 0:
                     event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
                 elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From dfa37496fb9a3c08ed875cb0b7c1636b46c3570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 004/115] fix: Keep the negotiated descriptions when a
 re-INVITE is refused

---
 sippy/UA.py               | 2 ++
 sippy/UaStateConnected.py | 9 ++++++---
 sippy/UacStateUpdating.py | 2 +-
 sippy/UasStateUpdating.py | 2 +-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 25fc904..5e02e25 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -72,6 +72,8 @@ class UA(object):
     uasResp = None
     lSDP = None
     rSDP = None
+    prev_lSDP = None
+    prev_rSDP = None
     kaInterval = 0
     branch = None
     reqs = None
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..57cf5fa 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -66,7 +66,7 @@ class UaStateConnected(UaStateGeneric):
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
-        if body is None:
+        if body is None and self.ua.rSDP is not None:
             # Some brain-damaged stacks use body-less re-INVITE as a means
             # for putting session on hold. Quick and dirty hack to make this
             # scenario working.
@@ -74,7 +74,7 @@ class UaStateConnected(UaStateGeneric):
             body.parse()
             for sect in body.content.sections:
                 sect.c_header.addr = '0.0.0.0'
-        elif str(self.ua.rSDP) == str(body):
+        elif body is not None and str(self.ua.rSDP) == str(body):
             self.ua.sendUasResponse(200, 'OK', self.ua.lSDP, (self.ua.lContact,))
             return None
         event = CCEventUpdate(body, rtime = req.rtime, origin = self.ua.origin)
@@ -86,6 +86,7 @@ class UaStateConnected(UaStateGeneric):
             event.max_forwards = req.getHFBody('max-forwards').getNum()
         except:
             pass
+        self.ua.prev_rSDP = self.ua.rSDP
         if body is not None:
             if self.ua.on_remote_sdp_change is not None:
                 body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
@@ -184,7 +185,8 @@ class UaStateConnected(UaStateGeneric):
     def _recvEventUpdate(self, event, eh):
         body = event.getData()
         fake_laddr = (('127.0.0.1', None), None)
-        if self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
+        if self.ua.lSDP is not None and body is not None and \
+          self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
             if self.ua.rSDP is not None:
                 self.ua.equeue.append(CCEventConnect((200, 'OK', self.ua.rSDP.getCopy()), \
                     rtime = event.rtime, origin = event.origin))
@@ -213,6 +215,7 @@ class UaStateConnected(UaStateGeneric):
             max_forwards_hf = None
         req = self.ua.genRequest('INVITE', body, extra_headers = eh, \
           max_forwards = max_forwards_hf)
+        self.ua.prev_lSDP = self.ua.lSDP
         self.ua.lSDP = body
         self.ua.newUacTransaction(req, req_extra_headers = eh)
         return (self.ua.UacStateUpdating,)
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index a3009c2..0fe2f1d 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -100,7 +100,7 @@ class UacStateUpdating(UaStateGeneric):
             scode = (code, reason, body, redirects)
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
-            self.ua.lSDP = None
+            self.ua.lSDP = self.ua.prev_lSDP
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
         event.reason_rfc3326 = reason_rfc3326
 
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..b782e3e 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -68,7 +68,7 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateConnected,)
 
     def _recvEventFail(self, event, eh):
-        self.ua.rSDP = None
+        self.ua.rSDP = self.ua.prev_rSDP
         self._sendFailResponse(event, eh)
         return (self.ua.UaStateConnected,)
 
-- 
2.43.0


From fa307b8e4cfa12629c1f9f8b1d2cc01e769765b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 005/115] fix: Hold the ACK of a late-offer call until the
 caller's answer is known

---
 sippy/SipTransactionManager.py | 3 ++-
 sippy/UA.py                    | 2 ++
 sippy/UaStateConnected.py      | 3 +++
 sippy/UacStateRinging.py       | 1 -
 sippy/UacStateTrying.py        | 4 +++-
 5 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index f950750..8b2b50c 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -454,6 +454,7 @@ class SipTransactionManager(object):
     def cancelTransaction(self, t, extra_headers = None):
         # If we got at least one provisional reply then (state == RINGING)
         # then start CANCEL transaction, otherwise deffer it
+        t.uack = False
         if extra_headers is not None and t.cancel is not None:
             t.cancel.appendHeaders(extra_headers)
         if t.state != RINGING:
@@ -530,7 +531,7 @@ class SipTransactionManager(object):
                         t.ack.getHFBody('via').genBranch()
                     if rAddr == None:
                         rAddr = (t.address, t.userv.transport)
-                    if not t.uack:
+                    if not t.uack or fcode >= 300 or msg.getBody() is None:
                         self.transmitMsg(t.userv, t.ack, rAddr[0], checksum, t.compact)
                         if t.req_out_cb != None:
                             t.req_out_cb(t.ack)
diff --git a/sippy/UA.py b/sippy/UA.py
index 5e02e25..e649e4f 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -484,3 +484,5 @@ class UA(object):
     def newUacTransaction(self, req, **kwa):
         self.tr = self.newTransaction(req, resp_cb = self.recvResponse, \
           cb_ifver = 2, **kwa)
+        # When the offer is expected in the answer the ACK has to wait for our own answer
+        self.tr.uack = self.late_media and not self.isConnected()
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 57cf5fa..5f31383 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -152,6 +152,9 @@ class UaStateConnected(UaStateGeneric):
 
     def _recvEventDisconnectFailRedirect(self, event, eh, redirect = None):
         #print('event', event, 'received in the Connected state sending BYE')
+        if self.ua.pending_tr is not None:
+            self.ua.global_config['_sip_tm'].sendACK(self.ua.pending_tr)
+            self.ua.pending_tr = None
         if redirect is not None and self.ua.useRefer:
             req = self.ua.genRequest('REFER', extra_headers = eh)
             also = SipReferTo(address = redirect)
diff --git a/sippy/UacStateRinging.py b/sippy/UacStateRinging.py
index 8534ef7..a6f61f0 100644
--- a/sippy/UacStateRinging.py
+++ b/sippy/UacStateRinging.py
@@ -85,7 +85,6 @@ class UacStateRinging(UacStateTrying):
                 rval = (self.ua.UaStateConnected, self.ua.conn_cbs, resp.rtime, self.ua.origin)
             else:
                 event = CCEventPreConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-                tr.uack = True
                 self.ua.pending_tr = tr
                 rval = (self.ua.UaStateConnected,)
             if body is not None:
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 477839e..8ce6361 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -28,6 +28,7 @@ from functools import partial
 
 from sippy.SipAddress import SipAddress
 from sippy.SipRoute import SipRoute
+from sippy.SipTransactionManager import UACK
 from sippy.UaStateGeneric import UaStateGeneric
 from sippy.Time.Timeout import TimeoutAbsMono
 from sippy.Time.MonoTime import MonoTime
@@ -102,7 +103,6 @@ class UacStateTrying(UaStateGeneric):
                 rval = (self.ua.UaStateConnected, self.ua.conn_cbs, resp.rtime, self.ua.origin)
             else:
                 event = CCEventPreConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-                tr.uack = True
                 self.ua.pending_tr = tr
                 rval = (self.ua.UaStateConnected,)
             if body is not None:
@@ -182,6 +182,8 @@ class UacStateTrying(UaStateGeneric):
             self.ua.rAddr = self.ua.rTarget.getTAddr()
 
     def genBYE(self):
+        if self.ua.tr.state == UACK:
+            self.ua.global_config['_sip_tm'].sendACK(self.ua.tr)
         req = self.ua.genRequest('BYE')
         self.ua.newTransaction(req)
 
-- 
2.43.0


From cf22a3d230263108294b5272d72a39b2a98da8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 006/115] fix: Apply the credit time granted by RADIUS to
 routes without their own

---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From c6f4610f58101746569b8a1d6470df89c5297cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 007/115] fix: Include the challenge in the 401 sent after
 RADIUS has refused a call

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e1380d8..947f0b7 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -224,7 +224,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.extra_headers = (self.challenge,)
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From 2a43b534119cb8dee14f78ad19e7039046852cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 008/115] fix: Fix the route group timeout after routes have
 become objects

---
 sippy/b2bua.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 947f0b7..fd70ad5 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -403,17 +403,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto == self.routes[-1].rnum + 1:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while self.routes[0].rnum != skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From 450c36daba2435ff83ca4dfcda0e4fc1ffb9a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 009/115] fix: Make the sip-ua destination work

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index fd70ad5..2b023bf 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -295,7 +295,7 @@ class CallController(object):
         if oroute.hostport == DST_SIP_UA:
             host = self.source[0]
             nh_address, same_af = self.source, True
-        if oroute.hostport == DST_WSS_UA:
+        elif oroute.hostport == DST_WSS_UA:
             host = self.req_target.host
             (nh_address, nh_transport), same_af = self.req_target.getTAddr(), True
             UA_kwa['nh_transport'] = nh_transport
-- 
2.43.0


From 63a20326ff014b3fe9d3db308b6b86bd5a9e4e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 010/115] fix: Cope with a group timeout that points at a route
 skipped or missing

---
 sippy/b2bua.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 2b023bf..2e54dad 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -410,10 +410,10 @@ class CallController(object):
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1].rnum + 1:
+        if skipto > self.routes[-1].rnum:
             self.routes = []
             return
-        while self.routes[0].rnum != skipto:
+        while self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From 25f68bcfd8454422063155934a045cdec64722e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 011/115] fix: Do not leave a call refused with 483 in the call
 table for ever

---
 sippy/b2bua.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 2e54dad..151a67d 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -286,6 +286,10 @@ class CallController(object):
         self.placeOriginate(self.routes.pop(0))
 
     def placeOriginate(self, oroute):
+        if self.eTry.max_forwards != None and self.eTry.max_forwards <= 1:
+            self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
+            self.state = CCStateDead
+            return
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
@@ -351,10 +355,6 @@ class CallController(object):
           oroute.params.get('caller_name', self.caller_name)))
         if self.eTry.max_forwards != None:
             event.max_forwards = self.eTry.max_forwards - 1
-            if event.max_forwards <= 0:
-                self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
-                self.state = CCStateDead
-                return
         event.reason_rfc3326 = self.eTry.reason_rfc3326
         po_proc = oroute.params.get('po_proc', None)
         if po_proc is not None:
-- 
2.43.0


From 7347d12151ac3257f8128b55c9440ba9efcd669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 012/115] fix: Report the real session time in Alive accounting
 records

---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..1b75882 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -26,6 +26,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from time import time, strftime, gmtime
+from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import Timeout
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From 517403e3cf7ee5538885c34997842f943534c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 013/115] fix: Refuse a re-INVITE with 491 while the answer of
 a late-offer call is outstanding

---
 sippy/UA.py                  | 1 +
 sippy/UaStateConnected.py    | 5 +++++
 sippy/UasStateProgressing.py | 1 +
 3 files changed, 7 insertions(+)

diff --git a/sippy/UA.py b/sippy/UA.py
index e649e4f..f8f918c 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -103,6 +103,7 @@ class UA(object):
     pending_tr = None
     tr = None
     late_media = False
+    ack_pending = False
     godead_timeout = 32.0
     compact_sip = False
     uas_lossemul = 0
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 5f31383..add9f86 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -63,6 +63,10 @@ class UaStateConnected(UaStateGeneric):
         return None
 
     def _recvRequestInvite(self, req):
+        if self.ua.ack_pending:
+            # Our offer in the 200 OK has not been answered yet
+            req.sendResponse(491, 'Request Pending')
+            return None
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
@@ -128,6 +132,7 @@ class UaStateConnected(UaStateGeneric):
     }
 
     def recvACK(self, req):
+        self.ua.ack_pending = False
         body = req.getBody()
         scode = ('ACK', 'ACK', body)
         event = CCEventConnect(scode, rtime = req.rtime, origin = self.ua.origin)
diff --git a/sippy/UasStateProgressing.py b/sippy/UasStateProgressing.py
index bb87150..909dd3e 100644
--- a/sippy/UasStateProgressing.py
+++ b/sippy/UasStateProgressing.py
@@ -50,6 +50,7 @@ class UasStateProgressing(UasStateGeneric):
         code, reason, body = cdata
         self.ua.sendUasResponse(code, reason, body, (self.ua.lContact,), ack_wait = True, \
           extra_headers = eh)
+        self.ua.ack_pending = True
         return (self.ua.UaStateConnected,)
 
     def _recvEventRedirect(self, event, eh):
-- 
2.43.0


From 9037ab3fe1279e901d5b35d92498d9438caaf424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 014/115] fix: Keep the route set in the ACK to a positive
 answer to a re-INVITE

---
 sippy/SipTransactionManager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 8b2b50c..f2a7383 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -500,10 +500,12 @@ class SipTransactionManager(object):
                     # Prepare and send ACK if necessary
                     fcode = msg.getSCode()[0]
                     tag = msg.getHFBody('to').getTag()
+                    # The route set never changes after the dialog is established
+                    fixed_routes = t.ack.getHFBody('to').getTag() != None and t.ack.countHFs('route') > 0
                     if tag != None:
                         t.ack.getHFBody('to').setTag(tag)
                     rAddr = None
-                    if msg.getSCode()[0] >= 200 and msg.getSCode()[0] < 300:
+                    if msg.getSCode()[0] >= 200 and msg.getSCode()[0] < 300 and not fixed_routes:
                         # Some hairy code ahead
                         if msg.countHFs('contact') > 0:
                             rTarget = msg.getHFBody('contact').getUrl().getCopy()
-- 
2.43.0


From aa94bdf34b654b3be498e826641465b70bbdb056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 015/115] fix: Do not fall over two in-dialog INVITEs that
 differ only in the branch

---
 sippy/SipTransactionManager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index f2a7383..1a5f894 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -793,7 +793,10 @@ class SipTransactionManager(object):
             t.teA = None
         if t.noack_cb != None and t.state != CONFIRMED:
             t.noack_cb()
-        del self.tserver[t.tid]
+        # Another request with the same Call-ID, CSeq and tags, but a
+        # different branch, may have taken the place in the meantime
+        if self.tserver.get(t.tid, None) == t:
+            del self.tserver[t.tid]
         t.cleanup()
 
     def timerE(self, t):
-- 
2.43.0


From f7628d8e250c7374a02fd1685f5a3536e08220c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 016/115] fix: Relay provisional and redirect answers to a
 re-INVITE without breaking the state

---
 sippy/UacStateUpdating.py |  2 +-
 sippy/UasStateUpdating.py | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 0fe2f1d..91758db 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -92,6 +92,7 @@ class UacStateUpdating(UaStateGeneric):
             reason_rfc3326 = resp.getHFBody('reason')
         except:
             reason_rfc3326 = None
+        self.ua.lSDP = self.ua.prev_lSDP
         if code in (301, 302) and resp.countHFs('contact') > 0:
             scode = (code, reason, body, (resp.getHFBody('contact').getUri().getCopy(),))
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
@@ -100,7 +101,6 @@ class UacStateUpdating(UaStateGeneric):
             scode = (code, reason, body, redirects)
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
-            self.ua.lSDP = self.ua.prev_lSDP
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
         event.reason_rfc3326 = reason_rfc3326
 
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index b782e3e..214c2f7 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -80,10 +80,28 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.disconnect_ts = event.rtime
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
+    def _recvEventRing(self, event, eh):
+        # Neither the state nor the session description in use change
+        # until the final response
+        scode = event.getData()
+        if scode is None:
+            code, reason, body = (180, 'Ringing', None)
+        else:
+            code, reason, body = scode
+            if self._delayLocalSdpUpdate(event, body):
+                return None
+        self.ua.sendUasResponse(code, reason, body, extra_headers = eh)
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        self.ua.rSDP = self.ua.prev_rSDP
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From 0060416ebca2a2982da80fb073d0735ee5ec015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 017/115] fix: reject nonces carrying characters outside of the
 base64 alphabet

---
 sippy/Security/SipNonce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Security/SipNonce.py b/sippy/Security/SipNonce.py
index 75cdffe..0b0c986 100644
--- a/sippy/Security/SipNonce.py
+++ b/sippy/Security/SipNonce.py
@@ -62,7 +62,7 @@ class AESCipher(object):
         return b64encode(eraw).rstrip(b'=')
 
     def decrypt(self, enc):
-        enc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        enc = b64decode(enc + (b'=' * (-len(enc) % 4)), validate=True)
         data = enc[:-MAC_SIZE]
         tag = enc[-MAC_SIZE:]
         ctag = hmac_new(self.mac_key, data, 'sha256').digest()[:MAC_SIZE]
-- 
2.43.0


From a8c746dd642263010bb24ee26c4c702254d61139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 018/115] fix: parse quoted digest parameters properly and
 reject incomplete credentials

---
 sippy/SipAuthorization.py | 49 ++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..1f68b51 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -29,6 +29,10 @@ from sippy.Security.SipNonce import HashOracle, DGST_MD5, DGST_MD5SESS, \
   DGST_SHA256, DGST_SHA256SESS, DGST_SHA512, DGST_SHA512SESS
 
 from hashlib import md5, new as hash_new, sha256
+import re
+
+# Commas and equal signs are parts of the value when within the quotes
+_PARAM_RE = re.compile(r'([^\s=,"]+)(?:\s*=\s*("(?:[^"\\]|\\.)*"|[^,]*))?')
 
 
 def sha512_256():
@@ -79,26 +83,32 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        params = self.body.split(' ', 1)[1] if ' ' in self.body else ''
+        for name, value in [x.group(1, 2) for x in _PARAM_RE.finditer(params)]:
+            if value is None:
+                continue
+            value = value.strip()
+            uvalue = value[1:-1] if value.startswith('"') and value.endswith('"') and len(value) > 1 \
+              else value.strip('"')
             ci_name = name.lower()
             if ci_name == 'username':
-                self.username = value.strip('"')
+                self.username = uvalue
             elif ci_name == 'uri':
-                self.uri = value.strip('"')
+                self.uri = uvalue
             elif ci_name == 'realm':
-                self.realm = value.strip('"')
+                self.realm = uvalue
             elif ci_name == 'nonce':
-                self.nonce = value.strip('"')
+                self.nonce = uvalue
             elif ci_name == 'response':
-                self.response = value.strip('"')
+                self.response = uvalue
             elif ci_name == 'qop':
-                self.qop = value.strip('"')
+                self.qop = uvalue
             elif ci_name == 'cnonce':
-                self.cnonce = value.strip('"')
+                self.cnonce = uvalue
             elif ci_name == 'nc':
-                self.nc = value.strip('"')
+                self.nc = uvalue
             elif ci_name == 'algorithm':
-                self.algorithm = value.strip('"')
+                self.algorithm = uvalue
             else:
                 self.otherparams.append((name, value))
         self.parsed = True
@@ -127,16 +137,27 @@ class SipAuthorization(SipGenericHF):
             return self.__class__(self.body)
         return self.__class__(cself = self)
 
-    def verify(self, password, method, body = None):
+    def isComplete(self):
         if not self.parsed:
             self.parse()
+        if None in (self.username, self.realm, self.nonce, self.uri, self.response):
+            return False
+        if self.algorithm not in _HASH_FUNC:
+            return False
+        if self.qop is not None and not (self.nc and self.cnonce):
+            return False
+        if self.algorithm is not None and self.algorithm.endswith('-sess') and self.cnonce is None:
+            return False
+        return True
+
+    def verify(self, password, method, body = None):
+        if not self.isComplete():
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
     def verifyHA1(self, HA1, method, body):
-        if not self.parsed:
-            self.parse()
-        if self.algorithm not in _HASH_FUNC:
+        if not self.isComplete():
             return False
         if self.qop != None and self.qop not in ('auth', 'auth-int'):
             return False
-- 
2.43.0


From 3f934e599d02548f431fc6da1261dc2a697053f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 019/115] fix: make the digest URI match the request line

---
 sippy/UA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index f8f918c..3f2b102 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -317,7 +317,7 @@ class UA(object):
             else:
                 sbody = None
             auth = challenge.genAuthHF(self.username, self.password, method, \
-              str(self.rTarget), sbody, qop)
+              self.rTarget.localStr(((None, None), str(target[1]))), sbody, qop)
             req.appendHeader(SipHeader(body = auth))
         if body is not None:
             req.setBody(body)
-- 
2.43.0


From c3c65e656f0c707da74b0dff3df43dc27a9edaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 020/115] fix: keep Max-Forwards when repeating a challenged
 INVITE

---
 sippy/UA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 3f2b102..1c93fca 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -211,7 +211,9 @@ class UA(object):
                 break
         else:
             return False
-        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers)
+        max_forwards = self.reqs[cseq].getHFBody('max-forwards').getNum()
+        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers, \
+          max_forwards = max_forwards)
         self.newUacTransaction(req, req_extra_headers = extra_headers)
         del self.reqs[cseq]
         return True
-- 
2.43.0


From 90d5396ee5fc4dc99274f5bd6cd883a40d5a084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 021/115] fix: do not answer 401 and 407 in turns forever

---
 sippy/UA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 1c93fca..c16fcc5 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -200,7 +200,8 @@ class UA(object):
 
     def processChallenge(self, resp, cseq, ch_hfname, auth_hfname, extra_headers):
         if self.username == None or self.password == None or \
-          self.reqs[cseq].countHFs(auth_hfname) != 0:
+          self.reqs[cseq].countHFs('authorization') != 0 or \
+          self.reqs[cseq].countHFs('proxy-authorization') != 0:
             return False
         for challenge in resp.getHFBodys(ch_hfname):
             #print(self.processChallenge, cseq, challenge, challenge.algorithm)
-- 
2.43.0


From 529e7c66de0f7028106b3cdeb2eb3a1c3b421d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 022/115] fix: do not repeat a challenged INVITE once the call
 is given up

---
 sippy/UA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index c16fcc5..9396c14 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -225,7 +225,8 @@ class UA(object):
         self.update_ua(resp)
         code, reason = resp.getSCode()
         cseq, method = resp.getHFBody('cseq').getCSeq()
-        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
+        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and \
+          isinstance(self.state, (self.UacStateTrying, self.UacStateUpdating)):
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
                 return None
-- 
2.43.0


From c49d7309d9370ad148b495751cfceeb396e32f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 023/115] fix: parse challenges of any scheme and ignore the
 ones which cannot be answered

---
 sippy/SipAuthorization.py   | 10 +++++++++
 sippy/SipWWWAuthenticate.py | 45 ++++++++++++++++++-------------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index 1f68b51..2293a64 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -34,6 +34,16 @@ import re
 # Commas and equal signs are parts of the value when within the quotes
 _PARAM_RE = re.compile(r'([^\s=,"]+)(?:\s*=\s*("(?:[^"\\]|\\.)*"|[^,]*))?')
 
+def parse_params(params):
+    for name, value in [x.group(1, 2) for x in _PARAM_RE.finditer(params)]:
+        if value is None:
+            continue
+        value = value.strip()
+        if len(value) > 1 and value.startswith('"') and value.endswith('"'):
+            yield name, value[1:-1]
+        else:
+            yield name, value.strip('"')
+
 
 def sha512_256():
     return hash_new('sha512_256')
diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d115dc5..7f34dc6 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -27,7 +27,7 @@
 from sippy.SipGenericHF import SipGenericHF
 from sippy.SipConf import SipConf
 from sippy.SipAuthorization import SipAuthorization, IsDigestAlgSupported, \
-  NameList2AlgMask
+  NameList2AlgMask, parse_params
 from sippy.Security.SipNonce import HashOracle
 
 from secrets import token_hex
@@ -35,6 +35,7 @@ from secrets import token_hex
 class SipWWWAuthenticate(SipGenericHF):
     hf_names = ('www-authenticate',)
     aclass = SipAuthorization
+    scheme = 'Digest'
     realm = None
     nonce = None
     qop = None
@@ -61,28 +62,23 @@ class SipWWWAuthenticate(SipGenericHF):
         self.nonce = nonce
 
     def parse(self):
-        parts = self.body.split(' ', 1)[1].strip().split('"')
-        if len(parts) % 2 != 0 and len(parts[-1]) == 0:
-            parts.pop()
-        while len(parts) > 0:
-            parts1 = [x.strip().split('=', 1) for x in parts.pop(0).strip(' ,=').split(',')]
-            if len(parts) > 0:
-                parts1[-1].append(parts.pop(0))
-            for name, value in parts1:
-                if name == 'realm':
-                    self.realm = value
-                elif name == 'nonce':
-                    self.nonce = value
-                elif name == 'algorithm':
-                    if value == 'md5':
-                        value = 'MD5'
-                    self.algorithm = value
-                elif name == 'qop':
-                    self.qop = [x.strip() for x in value.split(',')]
-                elif name == 'opaque':
-                    self.opaque = value
-                else:
-                    self.otherparams.append((name, value))
+        self.scheme, _, params = self.body.strip().partition(' ')
+        for name, value in parse_params(params):
+            ci_name = name.lower()
+            if ci_name == 'realm':
+                self.realm = value
+            elif ci_name == 'nonce':
+                self.nonce = value
+            elif ci_name == 'algorithm':
+                if value == 'md5':
+                    value = 'MD5'
+                self.algorithm = value
+            elif ci_name == 'qop':
+                self.qop = [x.strip() for x in value.split(',')]
+            elif ci_name == 'opaque':
+                self.opaque = value
+            else:
+                self.otherparams.append((name, value))
         self.parsed = True
 
     def __str__(self):
@@ -114,6 +110,7 @@ class SipWWWAuthenticate(SipGenericHF):
         if not self.parsed:
             return self.__class__(self.body)
         cself = self.__class__(realm = self.realm, nonce = self.nonce)
+        cself.scheme = self.scheme
         cself.algorithm = self.algorithm
         cself.qop = self.qop
         cself.opaque = self.opaque
@@ -143,6 +140,8 @@ class SipWWWAuthenticate(SipGenericHF):
         return auth
 
     def supportedAlgorithm(self):
+        if self.scheme.lower() != 'digest' or None in (self.realm, self.nonce):
+            return False, None
         if self.qop is not None:
             qops = [x for x in self.qop if x in ('auth', 'auth-int')]
             if len(qops) == 0:
-- 
2.43.0


From cb04fe2c512b58e09870aeeb1491f395a1c78b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 024/115] fix: pass challenges through after a provisional
 answer too

---
 sippy/UacStateRinging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sippy/UacStateRinging.py b/sippy/UacStateRinging.py
index a6f61f0..c99871f 100644
--- a/sippy/UacStateRinging.py
+++ b/sippy/UacStateRinging.py
@@ -106,6 +106,11 @@ class UacStateRinging(UacStateTrying):
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
+            if self.ua.pass_auth:
+                if code == 401 and resp.countHFs('www-authenticate') != 0:
+                    event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
+                elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From f894a29f02d1b8d05238b19a06abb9b1e09d16ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 025/115] fix: split messages into lines at CR and LF only

---
 sippy/SipMsg.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..0cd3393 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -24,6 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import re
+
 from sippy.SipHeader import SipHeader
 from sippy.SipContentLength import SipContentLength
 from sippy.SipContentType import SipContentType
@@ -33,6 +35,8 @@ from sippy.ESipHeaderIgnore import ESipHeaderIgnore
 from sippy.Exceptions.SipParseError import SipParseError
 from sippy.Network_server import Remote_address
 
+_EOL_RE = re.compile('\r\n|\r|\n')
+
 class SipMsg(object):
     headers = None
     body = None
@@ -57,7 +61,10 @@ class SipMsg(object):
                     self.__mbody = None
                 break
         # Split message into lines and put aside start line
-        lines = buf.splitlines()
+        # (str.splitlines() would also split at FF, NEL, U+2028 and so on)
+        lines = _EOL_RE.split(buf)
+        while len(lines) > 1 and len(lines[-1]) == 0:
+            lines.pop()
         self.setSL(lines[0])
         i = 2
         while i < len(lines):
-- 
2.43.0


From cd11138c8d760d153171ace3e482f7e6cdb6d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 026/115] fix: count Content-Length in bytes

---
 sippy/SipMsg.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 0cd3393..52fdb42 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -114,7 +114,8 @@ class SipMsg(object):
             if self.__mbody == None:
                 mblen = 0
             else:
-                mblen = len(self.__mbody)
+                # Content-Length counts bytes, not characters
+                mblen = len(self.__mbody.encode())
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
@@ -148,7 +149,7 @@ class SipMsg(object):
                     # happens with request
                     raise SipParseError('Truncated SIP body, %d bytes expected, %d received' % (blen, mblen))
             elif blen < mblen:
-                self.__mbody = self.__mbody[:blen]
+                self.__mbody = self.__mbody.encode()[:blen].decode(errors = 'ignore')
                 mblen = blen
         if self.__mbody != None:
             if self.__content_type != None:
@@ -163,7 +164,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -177,10 +178,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode())
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             if compact:
-- 
2.43.0


From 85faf12516d974cd4559bf5a9747706ed71af79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 027/115] fix: make SipRequest.getCopy() work

---
 sippy/SipMsg.py     | 3 ++-
 sippy/SipRequest.py | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 52fdb42..44e5020 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -278,7 +278,8 @@ class SipMsg(object):
         return tuple([(call_id, ftag, cseq, method, via.getBranch()) for via in self.getHFBodys('via')])
 
     def getCopy(self):
-        cself = self.__class__()
+        cself = self.__class__.__new__(self.__class__)
+        cself.headers = []
         for header in self.headers:
             cself.appendHeader(header.getCopy())
         if self.body is not None:
diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 1fb1d50..6de1b4c 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -97,6 +97,14 @@ class SipRequest(SipMsg):
     def getSL(self, local_addr = None):
         return self.method + ' ' + self.ruri.localStr(local_addr) + ' ' + self.sipver
 
+    def getCopy(self):
+        cself = SipMsg.getCopy(self)
+        cself.method = self.method
+        cself.ruri = self.ruri.getCopy()
+        cself.sipver = self.sipver
+        cself.user_agent = self.user_agent
+        return cself
+
     def getMethod(self):
         return self.method
 
-- 
2.43.0


From 5b61884ebcf56df8ba927f92d09ec1b0f3151f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 028/115] fix: keep the content type when copying an unparsed
 body

---
 sippy/MsgBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MsgBody.py b/sippy/MsgBody.py
index 2f63b3a..90c9ca7 100644
--- a/sippy/MsgBody.py
+++ b/sippy/MsgBody.py
@@ -79,7 +79,7 @@ class MsgBody(object):
 
     def getCopy(self):
         if not self.parsed:
-            return MsgBody(self.content)
+            return MsgBody(self.content, self.mtype.getCopy())
         return MsgBody(cself = self)
 
 if 'MultipartMixBody' not in globals():
-- 
2.43.0


From bbb960808833be19489c377b5371113b8ff61c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:26 +0000
Subject: [PATCH 029/115] fix: keep the headers of the parts of multipart
 bodies, accept quoted boundaries

---
 sippy/MultipartMixBody.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index eb9b0a6..29dfb05 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -40,7 +40,8 @@ class MultipartMixBody():
         if body is None:
             self.setBoundary(token_hex(16))
             return
-        sep = f'--{ctype.params["boundary"]}'
+        boundary = ctype.params["boundary"].strip('"')
+        sep = f'--{boundary}'
         bparts = body.split(sep)
         assert len(bparts) > 2
         assert len(bparts[0]) == 0
@@ -57,11 +58,15 @@ class MultipartMixBody():
                     ct = h.getBody()
                 else:
                     headers.append(h)
+            if ct is None:
+                ct = SipContentType('text/plain')
+                ct.parse()
             # add part
             sect = MsgBody(sect, ct)
             self.parts.append(sect)
             self.part_headers.append(headers)
-        self.setBoundary(ctype.params["boundary"])
+        self.setBoundary(boundary)
+        self.mtype.params["boundary"] = ctype.params["boundary"]
 
     def setBoundary(self, bnd):
         self.boundary = bnd
@@ -69,17 +74,23 @@ class MultipartMixBody():
         mtype.params["boundary"] = bnd
         self.mtype = mtype
 
+    def _partHeaders(self, idx, local_addr = None):
+        if idx >= len(self.part_headers):
+            return ''
+        return ''.join(f'{h.localStr(local_addr)}\r\n' for h in self.part_headers[idx])
+
     def __str__(self):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p}' for p in self.parts]
+        parts = [f'{bnd}{self._partHeaders(i)}Content-Type: {p.mtype}\r\n\r\n{p}'
+                 for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
 
     def localStr(self, local_addr = None):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
-                 for p in self.parts]
+        parts = [f'{bnd}{self._partHeaders(i, local_addr)}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
+                 for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
@@ -87,7 +98,9 @@ class MultipartMixBody():
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
+        cself.part_headers = [[h.getCopy() for h in hs] for hs in self.part_headers]
         cself.boundary = self.boundary
+        cself.mtype = self.mtype.getCopy()
         return cself
 
     def getContentType(self):
-- 
2.43.0


From 7c93cf3cbc7a597054583f592183787c190133a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 030/115] fix: copy SIP URIs completely

---
 sippy/SipURL.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 6c0ecfd..83e9adb 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -129,7 +129,7 @@ class SipURL(object):
             userdomain_suff, headers = userdomain[ear:].split('?', 1)
             userdomain = userdomain[:ear] + userdomain_suff
             for header in headers.split('&'):
-                k, v = header.split('=')
+                k, _, v = header.partition('=')
                 self.headers[k] = unquote(v)
         if ear > 0:
             userpass = userdomain[:ear - 1]
@@ -192,7 +192,7 @@ class SipURL(object):
             if len(arr) == 2:
                 self.headers = {}
                 for header in arr[1].split('&'):
-                    k, v = header.split('=')
+                    k, _, v = header.partition('=')
                     self.headers[k] = unquote(v)
 
     def setParams(self, params):
@@ -291,9 +291,10 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = None if self.headers is None else dict(self.headers), usertype = self.usertype, \
+          transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
-          userparams = list(self.userparams), lr = self.lr)
+          userparams = list(self.userparams), lr = self.lr, scheme = self.scheme)
 
     def getHost(self):
         return self.host
-- 
2.43.0


From dc15bd3f5d7511182fccd72076f2a46d59f82a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 031/115] fix: keep quoted strings of address headers in one
 piece

---
 sippy/SipAddress.py   | 63 +++++++++++++++++++------------------------
 sippy/SipGenericHF.py | 20 ++++++++++++++
 2 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 866f01d..e741671 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -24,23 +24,23 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from sippy.SipGenericHF import splitquoted
 from sippy.SipURL import SipURL
 try:
     from string import maketrans
     needquotes = lambda x, y: not x.encode().translate(y).isalnum()
 except ImportError:
     maketrans = str.maketrans
-    needquotes = lambda x, y: not x.translate(y).isalnum()
+    needquotes = lambda x, y: not (x.isascii() and x.translate(y).isalnum())
 
 def findquotes(s, pos = 1):
     rval = []
-    while True:
-        pos1 = s.find('"', pos)
-        if pos1 == -1:
-            break
-        pos = pos1 + 1
-        if pos1 == 0 or s[pos1 - 1] != '\\':
-            rval.append(pos1)
+    while pos < len(s):
+        if s[pos] == '\\':
+            pos += 1
+        elif s[pos] == '"':
+            rval.append(pos)
+        pos += 1
     return rval
 
 class SipAddress(object):
@@ -67,23 +67,11 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith('sip:') and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:')) and address.find('<') == -1:
             parts = address.split(';', 1)
-            self.url = SipURL(parts[0], relaxedparser = relaxedparser)
+            self.url = SipURL(parts[0].strip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
-                for l in parts[1].split(';'):
-                    if not l:
-                        continue
-                    k_v = l.split('=', 1)
-                    if len(k_v) == 2:
-                        k, v = k_v
-                    else:
-                        k = k_v[0]
-                        v = None
-                    self.params[k] = v
-                    if self.params_order.count(k) > 0:
-                        self.params_order.remove(k)
-                    self.params_order.append(k)
+                self.parseParams(parts[1])
             self.hadbrace = False
             return
         if address.startswith('"'):
@@ -112,19 +100,22 @@ class SipAddress(object):
         self.url = SipURL(url, relaxedparser = relaxedparser)
         paramstring = paramstring.strip()
         if paramstring:
-            for l in paramstring.split(';'):
-                if not l:
-                    continue
-                k_v = l.split('=', 1)
-                if len(k_v) == 2:
-                    k, v = k_v
-                else:
-                    k = k_v[0]
-                    v = None
-                self.params[k] = v
-                if self.params_order.count(k) > 0:
-                    self.params_order.remove(k)
-                self.params_order.append(k)
+            self.parseParams(paramstring)
+
+    def parseParams(self, paramstring):
+        for l in splitquoted(paramstring, ';'):
+            if not l:
+                continue
+            k_v = l.split('=', 1)
+            k = k_v[0].strip()
+            if len(k_v) == 2:
+                v = k_v[1].strip()
+            else:
+                v = None
+            self.params[k] = v
+            if self.params_order.count(k) > 0:
+                self.params_order.remove(k)
+            self.params_order.append(k)
 
     def __str__(self):
         return self.localStr()
diff --git a/sippy/SipGenericHF.py b/sippy/SipGenericHF.py
index 7be1523..25b55be 100644
--- a/sippy/SipGenericHF.py
+++ b/sippy/SipGenericHF.py
@@ -24,6 +24,26 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+def splitquoted(s, delim, angles = False):
+    # Split at delimiters, but not those within quotes or, if asked to,
+    # within angle brackets
+    parts, pos, cpos, quoted, angled = [], 0, 0, False, False
+    while cpos < len(s):
+        c = s[cpos]
+        if quoted and c == '\\':
+            cpos += 1
+        elif c == '"':
+            quoted = not quoted
+        elif not quoted:
+            if angles and c in '<>':
+                angled = (c == '<')
+            elif c == delim and not angled:
+                parts.append(s[pos:cpos].strip())
+                pos = cpos + 1
+        cpos += 1
+    parts.append(s[pos:].strip())
+    return parts
+
 class SipGenericHF(object):
     hf_names = None	# Set this in each subclass!!
     body = None
-- 
2.43.0


From f07c0c567d1586e5d4cd8d1c28650ecb5ac90159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 032/115] fix: split address header lists at the commas between
 the values only

---
 sippy/SipAddressHF.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/sippy/SipAddressHF.py b/sippy/SipAddressHF.py
index fa17d9b..2279e88 100644
--- a/sippy/SipAddressHF.py
+++ b/sippy/SipAddressHF.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, splitquoted
 from sippy.SipAddress import SipAddress
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
@@ -35,24 +35,8 @@ class SipAddressHF(SipGenericHF):
     def __init__(self, body = None, address = None):
         SipGenericHF.__init__(self, body)
         if body is not None:
-            csvs = []
-            pidx = 0
-            while 1:
-                idx = body.find(',', pidx)
-                if idx == -1:
-                    break
-                onum = body[:idx].count('<')
-                cnum = body[:idx].count('>')
-                qnum = body[:idx].count('"')
-                if (onum == 0 and cnum == 0 and qnum == 0) or (onum > 0 and \
-                  onum == cnum and (qnum % 2 == 0)):
-                    csvs.append(body[:idx])
-                    body = body[idx + 1:]
-                    pidx = 0
-                else:
-                    pidx = idx + 1
-            if (len(csvs) > 0):
-                csvs.append(body)
+            csvs = splitquoted(body, ',', angles = True)
+            if len(csvs) > 1:
                 raise ESipHeaderCSV(None, csvs)
         else:
             self.parsed = True
-- 
2.43.0


From 9a3b8cac2cb1e47bbab3b36f02e561718e17829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 033/115] fix: parse Via headers with blanks and quoted strings
 in them

---
 sippy/SipVia.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sippy/SipVia.py b/sippy/SipVia.py
index 0ae9f10..95788fb 100644
--- a/sippy/SipVia.py
+++ b/sippy/SipVia.py
@@ -26,7 +26,7 @@
 
 from random import random
 from secrets import token_hex
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, splitquoted
 from sippy.SipConf import SipConf
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
@@ -41,7 +41,9 @@ class SipVia(SipGenericHF):
 
     def __init__(self, body = None, cself = None):
         if body is not None and body.find(',') > -1:
-            raise ESipHeaderCSV(None, body.split(','))
+            bodys = splitquoted(body, ',')
+            if len(bodys) > 1:
+                raise ESipHeaderCSV(None, bodys)
         SipGenericHF.__init__(self, body)
         if body is not None:
             assert cself is None
@@ -59,11 +61,14 @@ class SipVia(SipGenericHF):
 
     def parse(self):
         self.params = {}
-        parts, hostname = self.body.split(None, 1)
-        self.sipver, self.transport = (p:=parts.rsplit('/', 1))[0].rstrip(), p[1].lstrip()
-        hcomps = [x.strip() for x in hostname.split(';')]
+        name, ver, parts = self.body.split('/', 2)
+        self.sipver = f'{name.strip()}/{ver.strip()}'
+        self.transport, hostname = parts.split(None, 1)
+        hcomps = splitquoted(hostname, ';')
         for param in hcomps[1:]:
-            sparam = param.split('=', 1)
+            if not param:
+                continue
+            sparam = [x.strip() for x in param.split('=', 1)]
             if len(sparam) == 1:
                 val = None
             else:
@@ -75,7 +80,7 @@ class SipVia(SipGenericHF):
             hcomps = hcomps[1].split(':', 1)
         else:
             hcomps = hcomps[0].split(':', 1)
-            self.hostname = hcomps[0]
+            self.hostname = hcomps[0].strip()
         if len(hcomps) == 2:
             try:
                 self.port = int(hcomps[1])
-- 
2.43.0


From cad6aaff768d64df3cf39061144343d943ab807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 034/115] fix: recognise the compact forms of Supported and
 Referred-By

---
 sippy/SipReferTo.py    | 5 +++++
 sippy/SipReferredBy.py | 7 ++++++-
 sippy/SipSupported.py  | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sippy/SipReferTo.py b/sippy/SipReferTo.py
index 4de8e8f..16f722a 100644
--- a/sippy/SipReferTo.py
+++ b/sippy/SipReferTo.py
@@ -28,3 +28,8 @@ from sippy.SipAddressHF import SipAddressHF
 
 class SipReferTo(SipAddressHF):
     hf_names = ('refer-to', 'r')
+
+    def getCanName(self, name, compact = False):
+        if compact:
+            return 'r'
+        return 'Refer-To'
diff --git a/sippy/SipReferredBy.py b/sippy/SipReferredBy.py
index 1677f7f..5cf17e5 100644
--- a/sippy/SipReferredBy.py
+++ b/sippy/SipReferredBy.py
@@ -27,4 +27,9 @@
 from sippy.SipAddressHF import SipAddressHF
 
 class SipReferredBy(SipAddressHF):
-    hf_names = ('referred-by',)
+    hf_names = ('referred-by', 'b')
+
+    def getCanName(self, name, compact = False):
+        if compact:
+            return 'b'
+        return 'Referred-By'
diff --git a/sippy/SipSupported.py b/sippy/SipSupported.py
index 829e95d..ad772b7 100644
--- a/sippy/SipSupported.py
+++ b/sippy/SipSupported.py
@@ -29,7 +29,7 @@ from sippy.SipGenericHF import SipGenericHF
 from functools import reduce
 
 class SipSupported(SipGenericHF):
-    hf_names = ('supported',)
+    hf_names = ('supported', 'k')
     caps = None
 
     def __init__(self, body = None, caps = None):
-- 
2.43.0


From c3aa87599067edcfd2e39ab4db432b371c1bf1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 035/115] fix: parse every valid Reason header and keep all of
 it

---
 sippy/SipReason.py | 53 +++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/sippy/SipReason.py b/sippy/SipReason.py
index cf338ad..304090a 100644
--- a/sippy/SipReason.py
+++ b/sippy/SipReason.py
@@ -24,7 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, splitquoted
+from sippy.ESipHeaderCSV import ESipHeaderCSV
 
 class SipReason(SipGenericHF):
     '''
@@ -34,44 +35,58 @@ class SipReason(SipGenericHF):
     protocol = None
     cause = None
     reason = None
+    otherparams = None
 
-    def __init__(self, body = None, protocol = None, cause = None, reason = None):
+    def __init__(self, body = None, protocol = None, cause = None, reason = None, \
+      otherparams = None):
+        if body is not None and body.find(',') > -1:
+            bodys = splitquoted(body, ',')
+            if len(bodys) > 1:
+                raise ESipHeaderCSV(None, bodys)
         SipGenericHF.__init__(self, body)
         if body is None:
             self.parsed = True
             self.protocol = protocol
             self.cause = cause
             self.reason = reason
+            self.otherparams = otherparams[:] if otherparams is not None else []
 
     def parse(self):
-        protocol, reason_params = self.body.split(';', 1)
-        self.protocol = protocol.strip()
-        while len(reason_params:=reason_params.lstrip()) > 0:
-            rp_name, reason_params = (p:=reason_params.split('=', 1))[0], p[1].lstrip() if len(p) > 1 else ''
-            assert rp_name in ('cause', 'text')
-            if rp_name == 'text' and reason_params.startswith('"'):
-                rp_value, reason_params = (p:=reason_params[1:].split('"', 1))[0], p[1] if len(p) > 1 else ''
-                reason_params = '' if len(p:=reason_params.split(';', 1)) == 1 else p[1]
-            else:
-                rp_value, reason_params = (p:=reason_params.split(';', 1))[0], p[1] if len(p) > 1 else ''
-            if rp_name == 'cause':
+        self.otherparams = []
+        reason_params = splitquoted(self.body, ';')
+        self.protocol = reason_params.pop(0)
+        for param in reason_params:
+            if not param:
+                continue
+            rp_name, _, rp_value = [x.strip() for x in param.partition('=')]
+            ci_name = rp_name.lower()
+            if ci_name == 'cause' and rp_value.isdecimal():
                 self.cause = int(rp_value)
-            elif rp_name == 'text':
+            elif ci_name == 'text':
+                if len(rp_value) > 1 and rp_value.startswith('"') and rp_value.endswith('"'):
+                    rp_value = rp_value[1:-1]
                 self.reason = rp_value
-        assert(self.cause is not None)
+            else:
+                self.otherparams.append(param)
         self.parsed = True
 
     def __str__(self):
         if not self.parsed:
             return self.body
-        if self.reason == None:
-            return '%s; cause=%d' % (self.protocol, self.cause)
-        return '%s; cause=%d; text="%s"' % (self.protocol, self.cause, self.reason)
+        s = self.protocol
+        if self.cause is not None:
+            s += '; cause=%d' % (self.cause,)
+        if self.reason is not None:
+            s += '; text="%s"' % (self.reason,)
+        for param in self.otherparams:
+            s += '; ' + param
+        return s
 
     def getCopy(self):
         if not self.parsed:
             return SipReason(self.body)
-        return SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason)
+        return SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason, \
+          otherparams = self.otherparams)
 
 if __name__ == '__main__':
     ours = 'Reason: Q.850; cause=31; text="db4e8de3-ef1e-4427-b6b8-afc339de9f0d;Callee only had Trouter endpoints registered and PNH got delivery errors from all of them."'
-- 
2.43.0


From 923de887becc64f23dc8f675801d916409f17716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 036/115] fix: keep Warning headers intact

---
 sippy/SipWarning.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index c429c78..c412cd0 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -24,7 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, splitquoted
+from sippy.ESipHeaderCSV import ESipHeaderCSV
 
 import socket
 
@@ -35,6 +36,10 @@ class SipWarning(SipGenericHF):
     text = None
 
     def __init__(self, body = None, cself = None, code = None, text = None):
+        if body is not None and body.find(',') > -1:
+            bodys = splitquoted(body, ',')
+            if len(bodys) > 1:
+                raise ESipHeaderCSV(None, bodys)
         SipGenericHF.__init__(self, body)
         if body is not None:
             return
@@ -50,7 +55,10 @@ class SipWarning(SipGenericHF):
 
     def parse(self):
         code, self.agent, text = self.body.split(None, 2)
-        self.text = text.strip('"')
+        text = text.strip()
+        if len(text) > 1 and text.startswith('"') and text.endswith('"'):
+            text = text[1:-1]
+        self.text = text
         self.code = int(code)
         self.parsed = True
 
@@ -60,4 +68,6 @@ class SipWarning(SipGenericHF):
         return '%d %s "%s"' % (self.code, self.agent, self.text)
 
     def getCopy(self):
+        if not self.parsed:
+            return self.__class__(self.body)
         return self.__class__(cself = self)
-- 
2.43.0


From 98a520c7973d582a4e8bc05591b01923f28b4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 037/115] fix: parse Replaces and Content-Type headers with
 blanks and quoted strings in them

---
 sippy/SipContentType.py | 17 +++++++++--------
 sippy/SipReplaces.py    | 16 +++++++++-------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/sippy/SipContentType.py b/sippy/SipContentType.py
index 9c7bb43..327d316 100644
--- a/sippy/SipContentType.py
+++ b/sippy/SipContentType.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, splitquoted
 
 class SipContentType(SipGenericHF):
     hf_names = ('content-type', 'c')
@@ -35,13 +35,14 @@ class SipContentType(SipGenericHF):
         SipGenericHF.__init__(self, body)
 
     def parse(self):
-        parts = self.body.split(';')
-        self.name = parts.pop(0)
-        params = []
+        parts = splitquoted(self.body, ';')
+        self.name = '/'.join([x.strip() for x in parts.pop(0).split('/')])
+        self.params = {}
         for part in parts:
-            param = part.split('=', 1)
-            params.append(param)
-        self.params = dict(params)
+            if not part:
+                continue
+            k, sep, v = [x.strip() for x in part.partition('=')]
+            self.params[k] = v if sep else None
         self.parsed = True
 
     def getCanName(self, name, compact = False):
@@ -62,7 +63,7 @@ class SipContentType(SipGenericHF):
         if not self.parsed:
             return super().__str__()
         s = [self.name,]
-        s += [f'{k}={v}' for k, v in self.params.items()]
+        s += [f'{k}={v}' if v is not None else k for k, v in self.params.items()]
         return ';'.join(s)
 
 if __name__ == '__main__':
diff --git a/sippy/SipReplaces.py b/sippy/SipReplaces.py
index e305574..2fe5ea5 100644
--- a/sippy/SipReplaces.py
+++ b/sippy/SipReplaces.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, splitquoted
 
 class SipReplaces(SipGenericHF):
     hf_names = ('replaces',)
@@ -50,14 +50,16 @@ class SipReplaces(SipGenericHF):
 
     def parse(self):
         self.params = []
-        params = self.body.split(';')
+        params = splitquoted(self.body, ';')
         self.call_id = params.pop(0)
         for param in params:
-            if param.startswith('from-tag='):
-                self.from_tag = param[len('from-tag='):]
-            elif param.startswith('to-tag='):
-                self.to_tag = param[len('to-tag='):]
-            elif param == 'early-only':
+            name, _, value = [x.strip() for x in param.partition('=')]
+            name = name.lower()
+            if name == 'from-tag':
+                self.from_tag = value
+            elif name == 'to-tag':
+                self.to_tag = value
+            elif name == 'early-only':
                 self.early_only = True
             else:
                 self.params.append(param)
-- 
2.43.0


From 8ee24be1b4dbdbf8b052fba904745aa2f858f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 038/115] fix: keep credentials and challenges other than
 complete Digest ones as they came

---
 sippy/SipAuthorization.py   | 38 ++++++++++++++++++++-----------------
 sippy/SipWWWAuthenticate.py | 15 ++++++++++-----
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index 2293a64..6586042 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -34,15 +34,15 @@ import re
 # Commas and equal signs are parts of the value when within the quotes
 _PARAM_RE = re.compile(r'([^\s=,"]+)(?:\s*=\s*("(?:[^"\\]|\\.)*"|[^,]*))?')
 
+def unquoted(value):
+    if len(value) > 1 and value.startswith('"') and value.endswith('"'):
+        return value[1:-1]
+    return value.strip('"')
+
 def parse_params(params):
     for name, value in [x.group(1, 2) for x in _PARAM_RE.finditer(params)]:
-        if value is None:
-            continue
-        value = value.strip()
-        if len(value) > 1 and value.startswith('"') and value.endswith('"'):
-            yield name, value[1:-1]
-        else:
-            yield name, value.strip('"')
+        if value is not None:
+            yield name, value.strip()
 
 
 def sha512_256():
@@ -93,13 +93,12 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        params = self.body.split(' ', 1)[1] if ' ' in self.body else ''
-        for name, value in [x.group(1, 2) for x in _PARAM_RE.finditer(params)]:
-            if value is None:
-                continue
-            value = value.strip()
-            uvalue = value[1:-1] if value.startswith('"') and value.endswith('"') and len(value) > 1 \
-              else value.strip('"')
+        scheme, _, params = self.body.strip().partition(' ')
+        if scheme.lower() != 'digest':
+            # Leave unparsed, so that it stays as it came
+            return
+        for name, value in parse_params(params):
+            uvalue = unquoted(value)
             ci_name = name.lower()
             if ci_name == 'username':
                 self.username = uvalue
@@ -132,12 +131,17 @@ class SipAuthorization(SipGenericHF):
     def __str__(self):
         if not self.parsed:
             return self.body
-        rval = 'Digest username="%s",realm="%s",nonce="%s",uri="%s",response="%s"' % \
-               (self.username, self.realm, self.nonce, self.uri, self.response)
+        rval = 'Digest ' + ','.join(['%s="%s"' % (name, value) for name, value in \
+          (('username', self.username), ('realm', self.realm), ('nonce', self.nonce), \
+          ('uri', self.uri), ('response', self.response)) if value is not None])
         if self.algorithm != None:
             rval += ',algorithm=%s' % (self.algorithm,)
         if self.qop != None:
-            rval += ',qop=%s,nc=%s,cnonce="%s"' % (self.qop, self.nc, self.cnonce)
+            rval += ',qop=%s' % (self.qop,)
+        if self.nc != None:
+            rval += ',nc=%s' % (self.nc,)
+        if self.cnonce != None:
+            rval += ',cnonce="%s"' % (self.cnonce,)
         for param in self.otherparams:
             rval += ',%s=%s' % param
         return rval
diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index 7f34dc6..d29fd03 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -27,7 +27,7 @@
 from sippy.SipGenericHF import SipGenericHF
 from sippy.SipConf import SipConf
 from sippy.SipAuthorization import SipAuthorization, IsDigestAlgSupported, \
-  NameList2AlgMask, parse_params
+  NameList2AlgMask, parse_params, unquoted
 from sippy.Security.SipNonce import HashOracle
 
 from secrets import token_hex
@@ -63,8 +63,12 @@ class SipWWWAuthenticate(SipGenericHF):
 
     def parse(self):
         self.scheme, _, params = self.body.strip().partition(' ')
-        for name, value in parse_params(params):
+        if self.scheme.lower() != 'digest':
+            # Leave unparsed, so that it stays as it came
+            return
+        for name, rvalue in parse_params(params):
             ci_name = name.lower()
+            value = unquoted(rvalue)
             if ci_name == 'realm':
                 self.realm = value
             elif ci_name == 'nonce':
@@ -78,7 +82,7 @@ class SipWWWAuthenticate(SipGenericHF):
             elif ci_name == 'opaque':
                 self.opaque = value
             else:
-                self.otherparams.append((name, value))
+                self.otherparams.append((name, rvalue))
         self.parsed = True
 
     def __str__(self):
@@ -89,7 +93,8 @@ class SipWWWAuthenticate(SipGenericHF):
             return self.body
         if local_addr == None or 'my' not in dir(self.realm):
             local_addr = self.realm
-        rval = 'Digest realm="%s",nonce="%s"' % (local_addr, self.nonce)
+        rval = 'Digest ' + ','.join(['%s="%s"' % (name, value) for name, value in \
+          (('realm', local_addr), ('nonce', self.nonce)) if value is not None])
         if self.qop != None:
             sqop = self.qop[0]
             for qop in self.qop[1:]:
@@ -103,7 +108,7 @@ class SipWWWAuthenticate(SipGenericHF):
         if self.opaque != None:
             rval += ',opaque="%s"' % (self.opaque,)
         for param in self.otherparams:
-            rval += ',%s="%s"' % param
+            rval += ',%s=%s' % param
         return rval
 
     def getCopy(self):
-- 
2.43.0


From 6e872362eb1263d5957ae360771d8346119f92f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 039/115] fix: copy the qop list along with the challenge

---
 sippy/SipWWWAuthenticate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d29fd03..e4e1b85 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -117,7 +117,7 @@ class SipWWWAuthenticate(SipGenericHF):
         cself = self.__class__(realm = self.realm, nonce = self.nonce)
         cself.scheme = self.scheme
         cself.algorithm = self.algorithm
-        cself.qop = self.qop
+        cself.qop = list(self.qop) if self.qop is not None else None
         cself.opaque = self.opaque
         if len(self.otherparams) > 0:
             cself.otherparams = self.otherparams[:]
-- 
2.43.0


From adc7128e3ad5e1f5874c95d08495b860a9153d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:25 +0000
Subject: [PATCH 040/115] fix: take an address without angle brackets for what
 it is

---
 sippy/SipAddress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index e741671..879c0aa 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -67,8 +67,8 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith(('sip:', 'sips:')) and address.find('<') == -1:
-            parts = address.split(';', 1)
+        parts = address.split(';', 1)
+        if address.lower().startswith(('sip:', 'sips:')) and parts[0].find('<') == -1:
             self.url = SipURL(parts[0].strip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
                 self.parseParams(parts[1])
-- 
2.43.0


From 351f6720099cac6dcda20e2e6c1e06bec5bbbdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 041/115] fix: drop nothing but the folding blanks when
 unfolding

---
 sippy/SipMsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 44e5020..d886b58 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -69,7 +69,7 @@ class SipMsg(object):
         i = 2
         while i < len(lines):
             if len(lines[i]) == 0 or lines[i][0] in (' ', '\t'):
-                lines[i - 1] += ' ' + lines[i].strip()
+                lines[i - 1] += ' ' + lines[i].strip(' \t')
                 del lines[i]
             else:
                 i += 1
-- 
2.43.0


From 66a3c593b425764b47fa551cb43dbf5d492899af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 042/115] fix: keep repeated b=, t=, r=, e=, p= lines of
 session descriptions

---
 sippy/SdpBody.py             | 10 +++++++---
 sippy/SdpGeneric.py          |  4 ++++
 sippy/SdpMediaDescription.py |  2 ++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 7c3dd32..5f08d94 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -53,6 +53,7 @@ class SdpBody(object):
     first_half = ('v', 'o', 's', 'i', 'u', 'e', 'p')
     second_half = ('b', 't', 'r', 'z', 'k')
     all_headers = ('v', 'o', 's', 'i', 'u', 'e', 'p', 'c', 'b', 't', 'r', 'z', 'k')
+    multi = ('e', 'p', 'b')
     top_hdrs_req = ('v', 'o', 's', 't')
     sect_hdrs_req = ('c', 'm')
     sections = None
@@ -82,10 +83,8 @@ class SdpBody(object):
             if current_snum == 0:
                 if name == 'c':
                     c_header = v
-                elif name == 'a':
-                    self.a_headers.append(a_header(v))
                 else:
-                    setattr(self, name + '_header', f_types[name](v))
+                    self.addHeader(name, v)
             else:
                 self.sections[-1].addHeader(name, v)
         if c_header != None:
@@ -220,5 +219,10 @@ class SdpBody(object):
     def addHeader(self, name, header):
         if name == 'a':
             self.a_headers.append(a_header(header))
+        elif name in ('t', 'r') and self.t_header is not None:
+            # The repeat times belong to the preceding t=
+            self.t_header = self.t_header.addLine(name, header)
+        elif name in self.multi and getattr(self, name + '_header') is not None:
+            setattr(self, name + '_header', getattr(self, name + '_header').addLine(name, header))
         else:
             setattr(self, name + '_header', f_types[name](header))
diff --git a/sippy/SdpGeneric.py b/sippy/SdpGeneric.py
index 45f4b87..9a896cf 100644
--- a/sippy/SdpGeneric.py
+++ b/sippy/SdpGeneric.py
@@ -28,5 +28,9 @@ class SdpGeneric(str):
     def localStr(self, local_addr = None):
         return str(self)
 
+    def addLine(self, name, body):
+        # Another line which has to stay right after this one
+        return SdpGeneric('%s\r\n%s=%s' % (self, name, body))
+
     def getCopy(self):
         return self
diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index d47b4e4..cfb1e41 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -106,6 +106,8 @@ class SdpMediaDescription(object):
     def addHeader(self, name, header):
         if name == 'a':
             self.a_headers.append(a_header(header))
+        elif name == 'b' and self.b_header is not None:
+            self.b_header = self.b_header.addLine(name, header)
         else:
             setattr(self, name + '_header', f_types[name](header))
 
-- 
2.43.0


From c9d2b3efe819628e28f5ed452a823969d9d2d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 043/115] fix: split session descriptions into lines at CR and
 LF only

---
 sippy/SdpBody.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 5f08d94..7fc2c09 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -30,6 +30,10 @@ from sippy.SdpOrigin import SdpOrigin
 from sippy.SdpConnecton import SdpConnecton
 from sippy.Exceptions.SdpParseError import SdpParseError
 
+import re
+
+_EOL_RE = re.compile('\r\n|\r|\n')
+
 f_types = {'v':SdpGeneric, 'o':SdpOrigin, 's':SdpGeneric, 'i':SdpGeneric, \
   'u':SdpGeneric, 'e':SdpGeneric, 'p':SdpGeneric, 'c':SdpConnecton, \
   'b':SdpGeneric, 't':SdpGeneric, 'r':SdpGeneric, 'z':SdpGeneric, \
@@ -72,7 +76,7 @@ class SdpBody(object):
         self.sections = []
         if body is None:
             return
-        avpairs = [x.split('=', 1) for x in body.strip().splitlines() if len(x.strip()) > 0]
+        avpairs = [x.split('=', 1) for x in _EOL_RE.split(body.strip()) if len(x.strip()) > 0]
         current_snum = 0
         c_header = None
         for name, v in avpairs:
-- 
2.43.0


From 60378a2e58d5ebe1f03721678526756d78a2d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 044/115] fix: accept port counts and non-numeric formats in m=
 lines

---
 sippy/SdpMedia.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sippy/SdpMedia.py b/sippy/SdpMedia.py
index 2c386ae..603e68d 100644
--- a/sippy/SdpMedia.py
+++ b/sippy/SdpMedia.py
@@ -37,6 +37,7 @@ class SdpMedia(object):
     type = None
     stype = None
     port = None
+    nports = None
     transport = None
     formats = None
 
@@ -51,27 +52,30 @@ class SdpMedia(object):
                 self.type = MTVideo
             else:
                 self.type = MTOther
-            self.port = int(params[1])
+            port, sep, nports = params[1].partition('/')
+            self.port = int(port)
+            if sep:
+                self.nports = int(nports)
             self.transport = params[2]
             if self.type in (MTAudio, MTVideo):
-                self.formats = [int(x) for x in params[3:]]
+                self.formats = [int(x) if x.isdecimal() else x for x in params[3:]]
             else:
                 self.formats = params[3:]
         else:
             self.type = cself.type
             self.stype = cself.stype
             self.port = cself.port
+            self.nports = cself.nports
             self.transport = cself.transport
             self.formats = cself.formats[:]
 
     def __str__(self):
-        rval = '%s %d %s' % (self.stype, self.port, self.transport)
-        if self.type in (MTAudio, MTVideo):
-            for format in self.formats:
-                rval += ' %d' % format
-        else:
-            for format in self.formats:
-                rval += ' %s' % format
+        port = str(self.port)
+        if self.nports is not None:
+            port += '/%d' % self.nports
+        rval = '%s %s %s' % (self.stype, port, self.transport)
+        for format in self.formats:
+            rval += ' %s' % format
         return rval
 
     def localStr(self, local_addr = None):
-- 
2.43.0


From 78af3d3b18af936961d9bb5556919d8313e1b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 045/115] fix: drop the rtcp-fb attributes of removed formats
 as well

---
 sippy/SdpMediaDescription.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index cfb1e41..5d1be90 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -122,7 +122,7 @@ class SdpMediaDescription(object):
         return None
 
     def optimize_a(self):
-        for ah in [x for x in self.a_headers if x.name in ('rtpmap', 'fmtp') and \
+        for ah in [x for x in self.a_headers if x.name in ('rtpmap', 'fmtp', 'rtcp-fb') and \
           x.value is not None]:
             try:
                 pt = int(ah.value.split(' ', 1)[0])
-- 
2.43.0


From b5d48eaff6d84132e8e57ed295b12f6706435d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 046/115] fix: fix: do not translate an erased called number

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 151a67d..f899d98 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -293,7 +293,7 @@ class CallController(object):
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
-        if 'static_tr_out' in self.global_config:
+        if cld is not None and 'static_tr_out' in self.global_config:
             cld = re_replace(self.global_config['static_tr_out'], cld)
         UA_kwa = {}
         if oroute.hostport == DST_SIP_UA:
-- 
2.43.0


From ae2e4c4a34e647abcc08fe37ad43a1a9cb5945bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 047/115] fix: fix: header names given with -h are not case
 sensitive

---
 sippy/MyConfigParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index df9dc61..8563064 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -183,9 +183,9 @@ class MyConfigParser(RawConfigParser):
             elif key == 'pass_header':
                 # XXX compatibility option
                 if self.has_key('_pass_headers'):
-                    self['_pass_headers'].append(value)
+                    self['_pass_headers'].append(value.lower())
                 else:
-                    self['_pass_headers'] = [value,]
+                    self['_pass_headers'] = [value.lower(),]
                 if self.has_key('pass_headers'):
                     self['pass_headers'] += ',' + value
                 else:
-- 
2.43.0


From 1f8673aedaec513b176a14c58bd067a8f0aacbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 048/115] fix: fix: quote the caller name set by a route

---
 sippy/B2B/Route.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index d77ccfb..03d2e62 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -187,6 +187,9 @@ class B2BRoute(object):
                 caller_name = unquote(v)
                 if len(caller_name) == 0:
                     caller_name = None
+                else:
+                    # The display name is kept in its quoted-string form
+                    caller_name = caller_name.replace('\\', '\\\\').replace('"', '\\"')
                 self.params['caller_name'] = caller_name
             elif a == 'ash':
                 ash = SipHeader(unquote(v))
-- 
2.43.0


From 647587b229c67a2dd56a8c0bd6f289a1b27e1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 049/115] fix: RADIUS requests: no line ends inside attribute
 values; replies: exact values, always a verdict

---
 sippy/Radius_client.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 8c7b4d4..4397bf1 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -54,7 +54,9 @@ class Radius_client(External_command):
                 a = 'Cisco-AVPair'
             elif a in self._cisco_vsa_names:
                 v = '%s=%s' % (str(a), str(v))
-            data.append('%s="%s"' % (str(a), str(v)))
+            # One line per attribute: a line end in the value must not start another
+            v = str(v).replace('\r', ' ').replace('\n', ' ')
+            data.append('%s="%s"' % (str(a), v))
         return data
 
     def do_auth(self, attributes, result_callback, *callback_parameters):
@@ -67,9 +69,19 @@ class Radius_client(External_command):
         if result_callback == None:
             return
         nav = []
+        try:
+            rcode = int(result[-1])
+        except (IndexError, ValueError):
+            # No verdict, the helper has died or is broken
+            rcode = -1
         for av in result[:-1]:
-            a, v = [x.strip() for x in av.decode().split(' = ', 1)]
-            v = v.strip('\'')
+            try:
+                a, v = [x.strip() for x in av.decode(errors = 'replace').split(' = ', 1)]
+            except ValueError:
+                # Not an attribute
+                continue
+            if len(v) > 1 and v[0] == v[-1] == '\'':
+                v = v[1:-1]
             if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
                 t = v.split('=', 1)
                 if len(t) > 1:
@@ -77,4 +89,4 @@ class Radius_client(External_command):
             elif v.startswith(a + '='):
                 v = v[len(a) + 1:]
             nav.append((a, v))
-        External_command.process_result(self, result_callback, (tuple(nav), int(result[-1])), *callback_parameters)
+        External_command.process_result(self, result_callback, (tuple(nav), rcode), *callback_parameters)
-- 
2.43.0


From 8f17ffa3d1c710a9475b414d5c6f39c92ec624ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 050/115] fix: External_command: start the helper again when it
 exits

---
 sippy/External_command.py | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 36d40f1..9c5bc20 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -46,12 +46,24 @@ class _Worker(Thread):
         self.master = master
         self.start()
 
-    def run(self):
+    def start_helper(self):
         need_close_fds = True
         if platform == 'win32':
             need_close_fds = False
-        pipe = Popen(self.command, shell = False, stdin = PIPE, \
+        return Popen(self.command, shell = False, stdin = PIPE, \
           stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+
+    def stop_helper(self, pipe):
+        for f in (pipe.stdin, pipe.stdout, pipe.stderr):
+            try:
+                f.close()
+            except OSError:
+                pass
+        pipe.kill()
+        pipe.wait()
+
+    def run(self):
+        pipe = self.start_helper()
         while True:
             self.master.work_available.acquire()
             while len(self.master.work) == 0:
@@ -71,17 +83,34 @@ class _Worker(Thread):
                 continue
             batch = [x.encode() + b'\n' for x in wi.data]
             batch.append(b'\n')
-            pipe.stdin.writelines(batch)
-            pipe.stdin.flush()
+            try:
+                pipe.stdin.writelines(batch)
+                pipe.stdin.flush()
+            except BrokenPipeError:
+                # The helper has exited, this request needs a new one
+                self.stop_helper(pipe)
+                pipe = self.start_helper()
+                try:
+                    pipe.stdin.writelines(batch)
+                    pipe.stdin.flush()
+                except BrokenPipeError:
+                    pass
             result = []
             while True:
                 try:
-                    line = pipe.stdout.readline().strip()
+                    line = pipe.stdout.readline()
                 except IOError as e:
                     # Catch EINTR
                     if e.args[0] != EINTR:
                         raise e
                     continue
+                if len(line) == 0:
+                    # The helper has exited and left the request unanswered
+                    result = []
+                    self.stop_helper(pipe)
+                    pipe = self.start_helper()
+                    break
+                line = line.strip()
                 if len(line) == 0:
                     break
                 result.append(line)
-- 
2.43.0


From 5a6b30a1fca4281e6c1cd0ad8c0af857ad6bc856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 051/115] fix: getHFs finds header fields whatever the case of
 the configured name

---
 sippy/SipMsg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index d886b58..21a2d82 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -197,6 +197,7 @@ class SipMsg(object):
         return self.startline
 
     def getHFs(self, name):
+        name = name.lower()
         return [x for x in self.headers if x.name == name]
 
     def countHFs(self, name):
-- 
2.43.0


From ad300a08623f8b056a4650f6aaee7c5cf7263819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 052/115] fix: treat incomplete or foreign credentials as none

---
 sippy/b2bua.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index f899d98..9bf09fc 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -92,6 +92,11 @@ def re_replace(ptrn, s):
 
 class Rtp_proxy_session_default(Rtp_proxy_session): insert_nortpp = True
 
+def have_credentials(auth):
+    if auth == None or auth.username == None or len(auth.username) == 0:
+        return False
+    return None not in (auth.realm, auth.nonce, auth.uri, auth.response)
+
 class CallController(object):
     id = 1
     uaA = None
@@ -193,7 +198,7 @@ class CallController(object):
                 if not self.global_config['auth_enable']:
                     self.username = self.remote_ip
                     self.rDone(((), 0))
-                elif auth == None or auth.username == None or len(auth.username) == 0:
+                elif not have_credentials(auth):
                     self.username = self.remote_ip
                     self.auth_proc = self.global_config['_radius_client'].do_auth(self.remote_ip, self.cli, self.cld, \
                       self.cId, self.remote_ip, self.rDone, extra_attributes=self.extra_attributes)
@@ -482,11 +487,12 @@ class CallMap(object):
 
             challenge = None
             if self.global_config['auth_enable']:
-                # Prepare challenge if no authorization header is present.
+                # Prepare challenge if no credentials are present.
                 # Depending on configuration, we might try remote ip auth
                 # first and then challenge it or challenge immediately.
                 if self.global_config['digest_auth'] and \
-                  req.countHFs('authorization') == 0:
+                  (req.countHFs('authorization') == 0 or \
+                  not have_credentials(req.getHFBody('authorization'))):
                     challenge = SipHeader(name = 'www-authenticate')
                     challenge.getBody().realm = req.getRURI().host
                 # Send challenge immediately if digest is the
-- 
2.43.0


From f8ba24bf85a98b22683d0e4d965c9a66b2cdb31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 053/115] fix: apply allowed_pts to every session description
 in the body

---
 sippy/b2bua.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 9bf09fc..5dbdfab 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,8 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.SdpBody import SdpBody
+from sippy.MultipartMixBody import MultipartMixBody
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
   CCStateConnected, CCStateDead, CCStateDisconnecting
@@ -147,27 +149,41 @@ class CallController(object):
         if prev_orc is not None:
             prev_orc = prev_orc()
         try:
-            body.parse()
+            bodies = [body]
+            for part in bodies:
+                part.parse()
+                if isinstance(part.content, MultipartMixBody):
+                    bodies.extend(part.content.parts)
         except Exception as exception:
             is_spe = isinstance(exception, SdpParseError)
             if not is_spe:
                 dump_exception('can\'t parse SDP body', extra = body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
+        for part in bodies:
+            if isinstance(part.content, SdpBody):
+                self.filter_sections(part.content.sections)
+        if prev_orc is not None:
+            return prev_orc(body, done_cb)
+        return body
+
+    def filter_sections(self, sections):
         allowed_pts = self.global_config['_allowed_pts']
-        for sect in body.content.sections:
+        for sect in sections:
             mbody = sect.m_header
-            if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:
+            if 'rtp/' not in mbody.transport.lower():
                 continue
             old_len = len(mbody.formats)
-            _allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]
+            _allowed_pts = []
+            for x in allowed_pts:
+                if isinstance(x, int):
+                    _allowed_pts.append(x)
+                else:
+                    _allowed_pts.extend(sect.getPTsbyName(x))
             mbody.formats = [x for x in mbody.formats if x in _allowed_pts]
             if len(mbody.formats) == 0:
                 raise SdpParseError('offered media prohibited by the policy')
             if old_len > len(mbody.formats):
                 sect.optimize_a()
-        if prev_orc is not None:
-            return prev_orc(body, done_cb)
-        return body
 
     def recvEvent(self, event, ua):
         if ua == self.uaA:
-- 
2.43.0


From 17fdd1b182602e1312bc697a36064a1cb417dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 054/115] fix: match payload names regardless of case, for
 every format that has the name and any RTP profile

---
 sippy/SdpMedia.py            |  2 +-
 sippy/SdpMediaDescription.py | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sippy/SdpMedia.py b/sippy/SdpMedia.py
index 603e68d..ee85e08 100644
--- a/sippy/SdpMedia.py
+++ b/sippy/SdpMedia.py
@@ -57,7 +57,7 @@ class SdpMedia(object):
             if sep:
                 self.nports = int(nports)
             self.transport = params[2]
-            if self.type in (MTAudio, MTVideo):
+            if self.type in (MTAudio, MTVideo) or 'rtp/' in self.transport.lower():
                 self.formats = [int(x) if x.isdecimal() else x for x in params[3:]]
             else:
                 self.formats = params[3:]
diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index 5d1be90..3e911ce 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -115,10 +115,19 @@ class SdpMediaDescription(object):
         assert(name == 'a')
         self.a_headers.insert(indx, a_header(header))
 
-    def getPTbyName(self, name):
+    def getPTsbyName(self, name):
+        pts = []
         for ah in self.a_headers:
-            if ah.name == 'rtpmap' and ah.value.split(' ', 1)[1] == name:
-                return int(ah.value.split(' ', 1)[0])
+            if ah.name != 'rtpmap' or ah.value is None:
+                continue
+            pt, _, encoding = ah.value.partition(' ')
+            if pt.isdecimal() and encoding.strip().lower() == name.lower():
+                pts.append(int(pt))
+        return pts
+
+    def getPTbyName(self, name):
+        for pt in self.getPTsbyName(name):
+            return pt
         return None
 
     def optimize_a(self):
-- 
2.43.0


From d104380f20e34d08c013d673a7974c685ff87a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 055/115] fix: ignore blanks around the items of allowed_pts

---
 sippy/MyConfigParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index 8563064..48e047e 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -206,7 +206,7 @@ class MyConfigParser(RawConfigParser):
                 raise ValueError('max_credit_time should be more than zero')
         elif key == 'allowed_pts':
             self['_allowed_pts'] = [int(x) if not (x.startswith('[') and x.endswith(']')) \
-                                           else x[1:-1] for x in value.split(',')]
+                                           else x[1:-1] for x in [y.strip() for y in value.split(',')]]
         elif key in ('accept_ips', 'rtp_proxy_clients'):
             self['_' + key] = [x.strip() for x in value.split(',')]
         elif key == 'pass_headers':
-- 
2.43.0


From ffc951f546252ba1aa3b5f1871ca1611bfdb557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 056/115] fix: process session descriptions in provisional
 answers to re-INVITEs

---
 sippy/UacStateUpdating.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 91758db..01e68d2 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -53,13 +53,28 @@ class UacStateUpdating(UaStateGeneric):
       'BYE': _recvRequestBye,
     }
 
+    def delayedRing(self, event, body, ex = None):
+        if ex is not None:
+            event.data = event.getData()[:2] + (None,)
+        self.ua.equeue.append(event)
+        self.ua.emitPendingEvents()
+
     def recvResponse(self, resp, tr):
         body = resp.getBody()
         code, reason = resp.getSCode()
         scode = (code, reason, body)
         if code < 200:
             if code != 100:
-                self.ua.equeue.append(CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin))
+                event = CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin)
+                if body is not None and self.ua.on_remote_sdp_change != None:
+                    try:
+                        body = self.ua.on_remote_sdp_change(body, partial(self.delayedRing, event))
+                    except SdpHandlingErrors:
+                        event.data = (code, reason, None)
+                    else:
+                        if body is None:
+                            return None
+                self.ua.equeue.append(event)
             return None
         if code >= 200 and code < 300:
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-- 
2.43.0


From 1f7385c6fffb66a5624f76fd043107b30c5e40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 057/115] fix: forget the call when its offer is refused

---
 sippy/UasStateIdle.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 96be6cf..343589b 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -101,7 +101,15 @@ class UasStateIdle(UaStateGeneric):
             self.ua.expire_timer = TimeoutAbsMono(self.ua.expires, self.ua.expire_mtime)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except Exception:
+                    # The request is refused, forget about the call
+                    for timer in (self.ua.expire_timer, self.ua.no_progress_timer):
+                        if timer != None:
+                            timer.cancel()
+                    self.ua.global_config['_sip_tm'].unregConsumer(self.ua, str(self.ua.cId))
+                    raise
                 if body is None:
                     self.ua.setup_ts = req.rtime
                     return (self.ua.UasStateTrying,)
-- 
2.43.0


From 636b62f7d5117778f386579917fbcb7d368fc292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 058/115] fix: answer challenges of keep-alive re-INVITEs

---
 sippy/UA.py               | 22 +++++++++++++---------
 sippy/UaStateConnected.py | 23 +++++++++--------------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 9396c14..0577419 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -198,22 +198,26 @@ class UA(object):
         else:
             return None
 
-    def processChallenge(self, resp, cseq, ch_hfname, auth_hfname, extra_headers):
-        if self.username == None or self.password == None or \
-          self.reqs[cseq].countHFs('authorization') != 0 or \
-          self.reqs[cseq].countHFs('proxy-authorization') != 0:
-            return False
+    def pickChallenge(self, resp, ch_hfname):
         for challenge in resp.getHFBodys(ch_hfname):
-            #print(self.processChallenge, cseq, challenge, challenge.algorithm)
+            #print(self.pickChallenge, challenge, challenge.algorithm)
             if self.auth_enalgs is not None and challenge.algorithm not in self.auth_enalgs:
                 continue
             supported, qop = challenge.supportedAlgorithm()
             if supported:
-                break
-        else:
+                return (challenge, qop)
+        return None
+
+    def processChallenge(self, resp, cseq, ch_hfname, auth_hfname, extra_headers):
+        if self.username == None or self.password == None or \
+          self.reqs[cseq].countHFs('authorization') != 0 or \
+          self.reqs[cseq].countHFs('proxy-authorization') != 0:
+            return False
+        cqop = self.pickChallenge(resp, ch_hfname)
+        if cqop is None:
             return False
         max_forwards = self.reqs[cseq].getHFBody('max-forwards').getNum()
-        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers, \
+        req = self.genRequest('INVITE', self.lSDP, cqop, extra_headers = extra_headers, \
           max_forwards = max_forwards)
         self.newUacTransaction(req, req_extra_headers = extra_headers)
         del self.reqs[cseq]
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index add9f86..f4f8377 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -277,20 +277,15 @@ class UaStateConnected(UaStateGeneric):
         if self.ua.state != self:
             return
         code, reason = resp.getSCode()
-        if code == 401 and resp.countHFs('www-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
-        if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
+        if code in (401, 407) and self.ua.username != None and \
+          self.ua.password != None and not self.triedauth:
+            cqop = self.ua.pickChallenge(resp, 'www-authenticate' if code == 401 else \
+              'proxy-authenticate')
+            if cqop is not None:
+                req = self.ua.genRequest('INVITE', self.ua.lSDP, cqop)
+                self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+                self.triedauth = True
+                return
         if code < 200:
             return
         self.ka_tr = None
-- 
2.43.0


From cadbd520ba1a8c697a45d01a78a8c13f4f4c60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 059/115] fix: count calls awaiting their authorisation as
 active on restart

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 5dbdfab..060de95 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -565,7 +565,7 @@ class CallMap(object):
         self.er_timer = Timeout(self.executeStop, 0.5, -1)
 
     def getActiveCalls(self):
-        return tuple(x for x in self.ccmap if x.state in (CCStateConnected, CCStateARComplete))
+        return tuple(x for x in self.ccmap if x.state in (CCStateConnected, CCStateARComplete, CCStateWaitRoute))
 
     def executeStop(self):
         if not self.safe_stop:
-- 
2.43.0


From ef4196ee7ccc8759dace696eb87933075d661a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 060/115] fix: ignore a received parameter the sender put in
 its own Via

---
 sippy/SipTransactionManager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 1a5f894..726899a 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -348,6 +348,9 @@ class SipTransactionManager(object):
                 req.nated = True
             if ahost != rhost:
                 via0.params['received'] = ra.received
+            else:
+                # Whatever is there has not been put by us
+                via0.params.pop('received', None)
             if 'rport' in via0.params or req.nated:
                 via0.params['rport'] = str(rport)
 
-- 
2.43.0


From ae1e01c6e873307f4271b35c61ec0c22ddd22b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 061/115] fix: parse and format all address and digit options
 of RTPproxy commands

---
 sippy/Rtp_proxy/cmd.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sippy/Rtp_proxy/cmd.py b/sippy/Rtp_proxy/cmd.py
index f7b9375..97a78b3 100644
--- a/sippy/Rtp_proxy/cmd.py
+++ b/sippy/Rtp_proxy/cmd.py
@@ -39,6 +39,12 @@ def extract_to_next_token(s, match, invert = False):
         return (s, '')
     return (s[:i], s[i:])
 
+def extract_address(s):
+    if s.startswith('[') and ']' in s:
+        i = s.index(']') + 1
+        return (s[:i], s[i:])
+    return extract_to_next_token(s, ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+
 class UpdateLookupOpts(object):
     destination_ip = None
     local_ip = None
@@ -59,12 +65,12 @@ class UpdateLookupOpts(object):
         self.otherparams = ''
         while len(s) > 0:
             if s[0] == 'R':
-                val, s = extract_to_next_token(s[1:], ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+                val, s = extract_address(s[1:])
                 val = val.strip()
                 if len(val) > 0:
                     self.destination_ip = val
             elif s[0] == 'L':
-                val, s = extract_to_next_token(s[1:], ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+                val, s = extract_address(s[1:])
                 val = val.strip()
                 if len(val) > 0:
                     self.local_ip = val
@@ -74,12 +80,16 @@ class UpdateLookupOpts(object):
                 if len(val) > 0:
                     self.codecs = [int(x) for x in val.split(',')]
             else:
-                val, s = extract_to_next_token(s, ('c', 'R'), True)
+                val, s = extract_to_next_token(s, ('c', 'R', 'L'), True)
                 if len(val) > 0:
                     self.otherparams += val
 
     def getstr(self, call_id, swaptags = False, skipnotify = False):
         s = ''
+        # Goes first, as it may start with a digit that would otherwise be
+        # taken for a part of the address or the codec list in front of it.
+        if self.otherparams != None and len(self.otherparams) > 0:
+            s += self.otherparams
         if self.destination_ip != None:
             s += 'R%s' % (self.destination_ip,)
         if self.local_ip != None:
@@ -89,8 +99,6 @@ class UpdateLookupOpts(object):
             for codec in self.codecs:
                 s += '%s,' % (codec,)
             s = s[:-1]
-        if self.otherparams != None and len(self.otherparams) > 0:
-            s += self.otherparams
         s = '%s %s' % (s, call_id)
         if self.remote_ip != None:
             s = '%s %s' % (s, self.remote_ip)
@@ -146,13 +154,13 @@ class Rtp_proxy_cmd(object):
                 self.args = args
                 self.command_opts = command_opts[1:]
         elif self.type in ('G',):
-            if not cmd[1].isspace():
+            if len(cmd) > 1 and not cmd[1].isspace():
                 cparts = cmd[1:].split(None, 1)
                 if len(cparts) > 1:
                     self.command_opts, self.args = cparts
                 else:
                     self.command_opts = cparts[0]
-            else:
+            elif len(cmd) > 1:
                 self.args = cmd[1:].strip()
         else:
             self.command_opts = cmd[1:]
-- 
2.43.0


From 3b43029d0da673e949697d3ae902889afb47d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 062/115] fix: do not take an RTPproxy online whose capability
 queries have failed

---
 sippy/Rtp_proxy/client.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 59c79fd..ea724f3 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -39,6 +39,7 @@ CAPSTABLE = {'20071218':'copy_supported', '20080403':'stat_supported', \
 class Rtpp_caps_checker(object):
     caps_requested = 0
     caps_received = 0
+    caps_failed = False
     rtpc = None
 
     def __init__(self, rtpc):
@@ -51,13 +52,19 @@ class Rtpp_caps_checker(object):
     def caps_query_done(self, result, vers, ex=None):
         self.caps_received += 1
         vname = CAPSTABLE[vers]
+        if result is None:
+            self.caps_failed = True
         if result == '1':
             setattr(self.rtpc, vname, True)
         else:
             setattr(self.rtpc, vname, False)
         if self.caps_received == self.caps_requested:
-            self.rtpc.caps_done = True
-            self.rtpc.go_online()
+            if self.caps_failed:
+                # The proxy has gone before telling us what it can do, start over
+                self.rtpc.version_check_later()
+            else:
+                self.rtpc.caps_done = True
+                self.rtpc.go_online()
             self.rtpc = None
 
 class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
@@ -215,9 +222,14 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
         elif self.online:
             self.go_offline()
         else:
-            to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
-            to.spread_runs(0.1)
-            to.go()
+            self.version_check_later()
+
+    def version_check_later(self):
+        if self.shut_down:
+            return
+        to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
+        to.spread_runs(0.1)
+        to.go()
 
     def heartbeat(self):
         #print('heartbeat', self, self.address)
@@ -269,9 +281,7 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
         #print('go_offline', self.address, self.online)
         if self.online:
             self.online = False
-            to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
-            to.spread_runs(0.1)
-            to.go()
+            self.version_check_later()
 
     def update_active(self, active_sessions, sessions_created, active_streams, preceived, ptransmitted):
         self.sessions_created = sessions_created
-- 
2.43.0


From 880959c33d54cfe484eee3d3809ac53d9b3137f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 063/115] fix: report an empty or non-numeric RTPproxy answer
 to an update as a failure

---
 sippy/Rtp_proxy/Session/update.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 078841d..c7bdd01 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -47,8 +47,8 @@ class update_params():
         result = result.rstrip()
         t0 = result.split('&&', 1)
         t1 = t0[0].split()
-        if t1[0][0] == 'E':
-            ex = RtpProxyError(f'RTPProxy errored: {t1[0]}')
+        if len(t1) == 0 or t1[0][0] == 'E':
+            ex = RtpProxyError(f'RTPProxy errored: {t0[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
             return
         ur = update_result()
@@ -84,7 +84,10 @@ class update_params():
                 subc_ress = subc_ress[len(subc.commands):]
                 if len(subc_ress) == 0:
                     break
-        ur.rtpproxy_port = int(t1[0])
+        try:
+            ur.rtpproxy_port = int(t1[0])
+        except ValueError:
+            ur.rtpproxy_port = 0
         if ur.rtpproxy_port == 0:
             ex = RtpProxyError(f'RTPProxy errored: bad port: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
-- 
2.43.0


From 90d796f8053d6044d0a7415679d58210ff023ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 064/115] fix: continue a call whose session description has
 nothing for the RTPproxy to handle

---
 sippy/Rtp_proxy/session.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..a6d2611 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -166,10 +166,15 @@ class Rtp_proxy_session(object):
         self.rtpp_seq.delete()
 
     def on_caller_sdp_change(self, sdp_body, result_callback):
-        self.caller._on_sdp_change(self, sdp_body, result_callback)
+        self._on_sdp_change(self.caller, sdp_body, result_callback)
 
     def on_callee_sdp_change(self, sdp_body, result_callback):
-        self.callee._on_sdp_change(self, sdp_body, result_callback)
+        self._on_sdp_change(self.callee, sdp_body, result_callback)
+
+    def _on_sdp_change(self, side, sdp_body, result_callback):
+        if side._on_sdp_change(self, sdp_body, result_callback) is not None:
+            # Nothing for the proxy to do
+            ED2.callFromThread(result_callback, sdp_body)
 
     def stats(self, result_callback, index = 0, *callback_parameters):
         command = 'Q %s %s %s' % ('%s-%d' % (self.call_id, index), self.from_tag, self.to_tag)
-- 
2.43.0


From 18a4b85bb01484aa6a63fc8e5aecf3d8262dea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 065/115] fix: release or keep both call legs when the RTPproxy
 fails during an update

---
 sippy/UA.py               | 45 +++++++++++++++++++++++++++++----------
 sippy/UacStateUpdating.py | 26 +++++++++++++++-------
 2 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 0577419..a728ef6 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -32,7 +32,8 @@ from sippy.UacStateIdle import UacStateIdle
 from sippy.SipRequest import SipRequest
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
-from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo
+from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, \
+  CCEventInfo, CCEventUpdate
 from sippy.MsgBody import MsgBody
 from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
@@ -424,22 +425,44 @@ class UA(object):
     def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-        else:
-            self.rSDP = remote_sdp_body.getCopy()
+            if isinstance(event, CCEventUpdate):
+                # Nobody else has heard of the update yet, just refuse it
+                self.recvEvent(self._getSdpFailEvent(ex))
+                return
+            self._sdpUpdateFailed(ex, event.getData()[0] == 'ACK')
+            return
+        self.rSDP = remote_sdp_body.getCopy()
         self.equeue.append(event)
         self.emitPendingEvents()
-        if ex is not None:
-            self.recvEvent(event)
 
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-            self.equeue.append(event)
-            self.emitPendingEvents()
+            if isinstance(event, CCEventUpdate):
+                # The update has not been sent, just refuse it
+                self.equeue.append(self._getSdpFailEvent(ex))
+                self.emitPendingEvents()
+                return
+            self._sdpUpdateFailed(ex, isinstance(self.state, (self.UaStateConnected, self.UasStateUpdating)))
+            return
+        self.recvEvent(event)
+
+    def _getSdpFailEvent(self, ex):
+        event = CCEventFail((ex.code, ex.msg))
+        event.reason_rfc3326 = ex.getReason()
+        return event
+
+    def _sdpUpdateFailed(self, ex, established):
+        # Release both sides. When the dialog is established either one might
+        # have an update in progress, merely failing which is not enough.
+        fevent = event = self._getSdpFailEvent(ex)
+        if established:
+            event = CCEventDisconnect(rtime = fevent.rtime, origin = self.origin)
+            event.reason_rfc3326 = fevent.reason_rfc3326
+        self.equeue.append(event)
+        self.emitPendingEvents()
+        if isinstance(self.state, self.UasStateUpdating):
+            self.recvEvent(fevent)
         self.recvEvent(event)
 
     def getAcct(self):
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 01e68d2..0636125 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -59,6 +59,22 @@ class UacStateUpdating(UaStateGeneric):
         self.ua.equeue.append(event)
         self.ua.emitPendingEvents()
 
+    def delayedConnect(self, event, body, ex = None):
+        if ex is not None and isinstance(self.ua.state, self.ua.UaStateConnected):
+            self.ua.changeState(self.sdpFailed(event, ex))
+            self.ua.emitPendingEvents()
+            return
+        self.ua.delayed_remote_sdp_update(event, body, ex)
+
+    def sdpFailed(self, event, ex):
+        event = CCEventFail((502, 'Bad Gateway'), rtime = event.rtime)
+        event.reason_rfc3326 = SipReason(protocol = 'SIP', cause = 502,
+          reason = 'Malformed SDP Body received from downstream')
+        disconnect_reason = SipReason(protocol = 'SIP', cause = 500,
+          reason = 'Fatal Dialog Refresh Error')
+        return self.updateFailed(event, bye_reason = ex.getReason(),
+          disconnect_reason = disconnect_reason)
+
     def recvResponse(self, resp, tr):
         body = resp.getBody()
         code, reason = resp.getSCode()
@@ -80,17 +96,11 @@ class UacStateUpdating(UaStateGeneric):
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
             if body is not None:
                 if self.ua.on_remote_sdp_change != None:
-                    cb_func = partial(self.ua.delayed_remote_sdp_update, event)
+                    cb_func = partial(self.delayedConnect, event)
                     try:
                         body = self.ua.on_remote_sdp_change(body, cb_func)
                     except SdpHandlingErrors as e:
-                        event = CCEventFail((502, 'Bad Gateway'), rtime = resp.rtime)
-                        event.reason_rfc3326 = SipReason(protocol = 'SIP', cause = 502,
-                          reason = 'Malformed SDP Body received from downstream')
-                        disconnect_reason = SipReason(protocol = 'SIP', cause = 500,
-                          reason = 'Fatal Dialog Refresh Error')
-                        return self.updateFailed(event, bye_reason = e.getReason(),
-                          disconnect_reason = disconnect_reason)
+                        return self.sdpFailed(event, e)
                     except Exception as e:
                         event = CCEventFail((502, 'Bad Gateway'), rtime = resp.rtime)
                         event.setWarning('Malformed SDP Body received from ' \
-- 
2.43.0


From be0b52d58fbd47509c86135b6e05c2f169606c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 066/115] fix: read configuration files with Python 3.12 and
 newer

---
 sippy/MyConfigParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index 48e047e..703d547 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -161,7 +161,8 @@ class MyConfigParser(RawConfigParser):
         return tuple([x + '=' for x in SUPPORTED_OPTIONS.keys()])
 
     def read(self, fname):
-        RawConfigParser.readfp(self, open(fname))
+        with open(fname) as f:
+            RawConfigParser.read_file(self, f)
         for key in tuple(self.options(self._default_section)):
             self.check_and_set(key, RawConfigParser.get(self, \
               self._default_section, key), False)
-- 
2.43.0


From 8ced23229728c6e68b80ea11bb1e5d4021fee280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 067/115] fix: do not start the web UI when it is set to off

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 060de95..55de1c7 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -833,7 +833,7 @@ def main_func():
     global_config['_sip_tm'] = stm
     global_config['_sip_tm'].nat_traversal = global_config.getdefault('nat_traversal', False)
 
-    if 'ui' in global_config:
+    if global_config.getdefault('ui', False):
         from sippy.UI.Controller import UIController
         global_config['_ui_controller'] = UIController(global_config)
 
-- 
2.43.0


From 45ceedee08957b4dbb03a687a653d088a49a8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 068/115] fix: answer requests that cannot be parsed

---
 sippy/SipRequest.py            | 2 ++
 sippy/SipTransactionManager.py | 8 +++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 6de1b4c..462d45e 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -49,6 +49,8 @@ class SipRequest(SipMsg):
             try:
                 SipMsg.init_body(self)
             except SipParseError as e:
+                if self.method == 'ACK':
+                    raise
                 try:
                     e.sip_response = self.genResponse(400, 'Bad Request - %s' % str(e))
                 except Exception as e1:
diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 726899a..c511bec 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -331,12 +331,10 @@ class SipTransactionManager(object):
                 req = SipRequest(data)
                 tids = req.getTIds()
             except Exception as exception:
-                if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
-                    if resp is not None:
-                        self.transmitMsg(server, resp, ra.address, checksum)
-                dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
+                if isinstance(exception, SipParseError) and exception.sip_response is not None:
+                    self.transmitMsg(server, exception.sip_response, ra.address, checksum)
+                dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
                 return
             call_id = tids[0][0]
             req.rtime = rtime
-- 
2.43.0


From fe6e78966cd50f64844bcf61036f1c87131170b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 069/115] fix: refuse messages with unreadable Content-Length

---
 sippy/SipMsg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 21a2d82..4c5a527 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -110,7 +110,12 @@ class SipMsg(object):
 
     def init_body(self):
         if self.__content_length != None:
-            blen = self.__content_length.getBody().number
+            try:
+                blen = self.__content_length.getBody().number
+            except ValueError:
+                raise SipParseError('Unreadable Content-Length')
+            if blen < 0:
+                raise SipParseError('Negative Content-Length')
             if self.__mbody == None:
                 mblen = 0
             else:
-- 
2.43.0


From 6c93620357009f6ba4949e19ae894cff017360fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 070/115] fix: answer requests whose handling fails

---
 sippy/SipTransactionManager.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index c511bec..f3a6187 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -297,6 +297,7 @@ class SipTransactionManager(object):
             try:
                 resp = SipResponse(data)
                 tid = resp.getTId(True, True)
+                resp.getHFBody('to')
             except Exception as exception:
                 dump_exception(f'can\'t parse SIP response from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
@@ -330,6 +331,7 @@ class SipTransactionManager(object):
             try:
                 req = SipRequest(data)
                 tids = req.getTIds()
+                req.getHFBody('to')
             except Exception as exception:
                 self.l1rcache[checksum] = SipTMRetransmitO()
                 if isinstance(exception, SipParseError) and exception.sip_response is not None:
@@ -360,7 +362,7 @@ class SipTransactionManager(object):
                     return req.getHFBody('contact')
                 except Exception as exception:
                     dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
-                    self.l1rcache[checksum] = SipTMRetransmitO()
+                    self.refuseRequest(req, checksum, server, 400, 'Bad Request')
                     return None
 
             if self.nat_traversal and usable_contact():
@@ -393,6 +395,21 @@ class SipTransactionManager(object):
                 if resp is None:
                     raise ex
                 ex_sendResponse(resp)
+            except Exception:
+                # Nobody is going to answer it anymore
+                self.refuseRequest(req, checksum, server, 500, 'Server Internal Error')
+                raise
+
+    def refuseRequest(self, req, checksum, server, scode, reason):
+        self.l1rcache.setdefault(checksum, SipTMRetransmitO())
+        if req.getMethod() == 'ACK':
+            return
+        t = self.tserver.get(req.getTId(wBRN = True), None)
+        resp = req.genResponse(scode, reason)
+        if t == None:
+            self.transmitMsg(server, resp, resp.getHFBody('via').getTAddr(), checksum)
+        elif t.checksum == checksum and t.state in (TRYING, RINGING):
+            self.sendResponse(resp, t)
 
     # 1. Client transaction methods
     def newTransaction(self, msg, resp_cb = None, laddress = None, userv = None, \
-- 
2.43.0


From 16154fb23590fff73fa71d8b6d1137b455983bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 071/115] fix: do not leave client transactions behind when the
 final answer cannot be handled

---
 sippy/SipTransactionManager.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index f3a6187..4f291ca 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -298,6 +298,10 @@ class SipTransactionManager(object):
                 resp = SipResponse(data)
                 tid = resp.getTId(True, True)
                 resp.getHFBody('to')
+                if tid[3] == 'INVITE' and 200 <= resp.getSCode()[0] < 400:
+                    # Those say where to go next
+                    resp.getHFBodys('contact')
+                    resp.getHFBodys('record-route')
             except Exception as exception:
                 dump_exception(f'can\'t parse SIP response from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
@@ -563,15 +567,16 @@ class SipTransactionManager(object):
                         t.teG = Timeout(self.timerG, 64, 1, t)
                 else:
                     self.l1rcache[checksum] = SipTMRetransmitO()
-                if t.resp_cb != None:
-                    if t.cb_ifver == 1:
-                        t.resp_cb(msg)
-                    else:
-                        t.resp_cb(msg, t)
-                if t.state == UACK:
-                    return
-                del self.tclient[t.tid]
-                t.cleanup()
+                try:
+                    if t.resp_cb != None:
+                        if t.cb_ifver == 1:
+                            t.resp_cb(msg)
+                        else:
+                            t.resp_cb(msg, t)
+                finally:
+                    if t.state != UACK:
+                        del self.tclient[t.tid]
+                        t.cleanup()
 
     def timerA(self, t):
         #print('timerA', t)
-- 
2.43.0


From d7b8c1a5caa5ba57e01449d09ac2017687ec5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 072/115] fix: release both legs when the RTPproxy fails while
 updates from both ends are pending

---
 sippy/UacStateUpdating.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 0636125..b1f259a 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -60,6 +60,9 @@ class UacStateUpdating(UaStateGeneric):
         self.ua.emitPendingEvents()
 
     def delayedConnect(self, event, body, ex = None):
+        if ex is not None and isinstance(self.ua.state, self.ua.UasStateUpdating):
+            # An update from the other end has arrived in the meantime
+            self.ua.recvEvent(self.ua._getSdpFailEvent(ex))
         if ex is not None and isinstance(self.ua.state, self.ua.UaStateConnected):
             self.ua.changeState(self.sdpFailed(event, ex))
             self.ua.emitPendingEvents()
-- 
2.43.0


From abfe4c42031fc716dd11da1611ab1f9ea9d95807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 073/115] fix: refuse an update that crosses one from the other
 end

---
 sippy/UasStateUpdating.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 214c2f7..a99eab8 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -25,7 +25,8 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.UasStateGeneric import UasStateGeneric
-from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
+from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, \
+  CCEventFail, CCEventRedirect, CCEventUpdate
 
 class UasStateUpdating(UasStateGeneric):
     sname = 'Updating(UAS)'
@@ -98,12 +99,18 @@ class UasStateUpdating(UasStateGeneric):
         super()._recvEventRedirect(event, eh)
         return (self.ua.UaStateConnected,)
 
+    def _recvEventUpdate(self, event, eh):
+        # Both ends have initiated an update at the same time
+        self.ua.equeue.append(CCEventFail((491, 'Request Pending')))
+        return None
+
     recv_event_handlers = {
       CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
       CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
+      CCEventUpdate: _recvEventUpdate,
     }
 
     def cancel(self, rtime, inreq):
-- 
2.43.0


From 22aa0a7e95386362b263c61c191b12596b3e9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 074/115] fix: answer a 407 challenge with Proxy-Authorization

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..94b2f76 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -96,7 +96,7 @@ class SipRegistrationAgent(object):
             return
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
-                                 (407, 'proxy-authenticate', 'authorization')):
+                                 (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
                 if resp.countHFs(chn) == 0:
-- 
2.43.0


From cccea30d7a041ef2d56203241bfb50d45956113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 075/115] fix: consider every challenge in the reply to a
 REGISTER

---
 sippy/SipRegistrationAgent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 94b2f76..c4b5f41 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -99,11 +99,11 @@ class SipRegistrationAgent(object):
                                  (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
-                if resp.countHFs(chn) == 0:
-                    break
-                challenge = resp.getHFBody(chn)
-                supported, qop = challenge.supportedAlgorithm()
-                if not supported:
+                for challenge in resp.getHFBodys(chn):
+                    supported, qop = challenge.supportedAlgorithm()
+                    if supported:
+                        break
+                else:
                     break
                 auth = challenge.genAuthHF(self.user, self.passw, 'REGISTER',
                                            str(self.rmsg.ruri), qop=qop)
-- 
2.43.0


From 69e3f8843e853c01d5b7cfe1bbaf4b337830478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 076/115] fix: take the expiry of our own binding

---
 sippy/SipRegistrationAgent.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index c4b5f41..bb2d498 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -74,15 +74,27 @@ class SipRegistrationAgent(object):
         self.dead = True
         self.rmsg = None
 
+    def getBinding(self, resp):
+        # All contacts that are registered at the moment are listed
+        contacts = [x for x in resp.getHFBodys('contact') if not x.asterisk]
+        if len(contacts) == 0:
+            return None
+        def key(contact):
+            url = contact.getUrl()
+            return (url.username, str(url.host).lower(), url.getPort())
+        own = key(self.rmsg.getHFBody('contact'))
+        for contact in contacts:
+            if key(contact) == own:
+                return contact
+        return contacts[0]
+
     def gotreply(self, resp):
         if self.dead:
             return
         if resp.scode < 200:
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
-            contact = None
-            if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
+            contact = self.getBinding(resp)
             if contact != None and 'expires' in contact.address.params:
                 tout = int(contact.address.params['expires'])
             elif resp.countHFs('expires') > 0:
-- 
2.43.0


From 9a2a8ff0266dbd35c9cec9acda6b04412f433d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 077/115] fix: survive an unreadable expiry in the reply to a
 REGISTER

---
 sippy/SipRegistrationAgent.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index bb2d498..4dbeac6 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -94,12 +94,18 @@ class SipRegistrationAgent(object):
         if resp.scode < 200:
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
-            contact = self.getBinding(resp)
-            if contact != None and 'expires' in contact.address.params:
-                tout = int(contact.address.params['expires'])
-            elif resp.countHFs('expires') > 0:
-                tout = resp.getHFBody('expires').getNum()
-            else:
+            try:
+                contact = self.getBinding(resp)
+            except Exception:
+                contact = None
+            try:
+                if contact != None and 'expires' in contact.address.params:
+                    tout = int(contact.address.params['expires'])
+                elif resp.countHFs('expires') > 0:
+                    tout = resp.getHFBody('expires').getNum()
+                else:
+                    tout = self.exp
+            except (ValueError, TypeError):
                 tout = self.exp
             timer = Timeout(self.doregister, tout)
             if self.rok_cb != None:
-- 
2.43.0


From 6ec36705061af06a6985a2580387b0e74a091969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 078/115] fix: send the requested expiry of a registration

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 4dbeac6..33e0036 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -58,7 +58,7 @@ class SipRegistrationAgent(object):
         fr0m.genTag()
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
-        contact.address.params['expires'] = str(exp)
+        contact.address.setParam('expires', str(exp))
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
-- 
2.43.0


From b47b62a5add64ef740b39c53a7ca5702b8dca14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:50 +0000
Subject: [PATCH 079/115] fix: pad RTP audio after resampling it

---
 sippy/Rtp/OutputWorker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp/OutputWorker.py b/sippy/Rtp/OutputWorker.py
index 502c36d..0f0dcc2 100644
--- a/sippy/Rtp/OutputWorker.py
+++ b/sippy/Rtp/OutputWorker.py
@@ -154,7 +154,7 @@ class RTPOutputWorker():
                 chunk.resample(self.samplerate_out)
             if self.data_log is not None:
                 self.data_log.extend(chunk.to_bytes())
-            chunk_ebytes = self.codec.d2e_frames(chunk_nframes)
+            chunk_ebytes = self.codec.d2e_frames(chunk.nframes)
             pad_nbytes = (-chunk_ebytes) % self._out_psize
             if pad_nbytes != 0:
                 pad_nframes = self.codec.e2d_frames(pad_nbytes)
-- 
2.43.0


From 9330eec6d49829ec4ec4b2a2c7d4303126424a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:50 +0000
Subject: [PATCH 080/115] fix: encode silence for lost G.722 packets

---
 sippy/Rtp/Codecs/G722.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp/Codecs/G722.py b/sippy/Rtp/Codecs/G722.py
index 63fe43f..e810d37 100644
--- a/sippy/Rtp/Codecs/G722.py
+++ b/sippy/Rtp/Codecs/G722.py
@@ -34,8 +34,8 @@ class G722Codec(GenCodec):
         return chunk
 
     def silence(self, nframes:int):
-        pcm16 = array('h', [0]) * self.e2d_frames(nframes)
-        return self.encode(pcm16)
+        pcm16 = array('h', [0]) * self.e2d_frames(nframes, out_srate=self.srate)
+        return self.codec.encode(pcm16)
 
     def e2d_frames(self, enframes:int, out_srate:int=None):
         #assert out_srate % self.srate == 0
-- 
2.43.0


From 26160ab650e25f1f465628037a5c9bc01355e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:18 +0000
Subject: [PATCH 081/115] fix: keep the other signal handlers when one is
 cancelled

---
 sippy/Signal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sippy/Signal.py b/sippy/Signal.py
index 6c30386..5c47b33 100644
--- a/sippy/Signal.py
+++ b/sippy/Signal.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from signal import signal, SIG_IGN, SIG_DFL
+from signal import signal, getsignal, SIG_IGN, SIG_DFL
 
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
@@ -55,7 +55,16 @@ class Signal(object):
             dump_exception('Signal: unhandled exception in signal callback')
 
     def cancel(self):
-        signal(self.signum, self.previous_handler)
+        handler = getsignal(self.signum)
+        if handler == self.signal_handler:
+            signal(self.signum, self.previous_handler)
+        else:
+            # Somebody else has been registered since, keep the chain going
+            while isinstance(getattr(handler, '__self__', None), Signal):
+                if handler.__self__.previous_handler == self.signal_handler:
+                    handler.__self__.previous_handler = self.previous_handler
+                    break
+                handler = handler.__self__.previous_handler
         self.callback = None
         self.parameters = None
         self.previous_handler = None
-- 
2.43.0


From c785fd3cec0c778c992ecedda990a3433bc83cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 082/115] fix: keep receiving after an unexpected socket error

---
 sippy/Udp_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 81a7bd9..5235952 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -34,6 +34,7 @@ except NameError:
 from errno import ECONNRESET, ENOTCONN, ESHUTDOWN, EWOULDBLOCK, ENOBUFS, EAGAIN, \
   EINTR, EBADF, EADDRINUSE
 from datetime import datetime
+from os import getpid
 from time import sleep, time
 from threading import Thread
 from sysconfig import get_platform
@@ -116,10 +117,10 @@ class AsyncReceiver(Thread):
                     break
                 if why.errno in (EINTR,):
                     continue
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())
                 continue
             except Exception:
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())
                 sleep(1)
                 continue
             if self.userv.uopts.family == socket.AF_INET6:
-- 
2.43.0


From 171dab865d2511e7ec05c6eb7cb89145e1258c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 083/115] fix: receive datagrams of any size

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 5235952..9b349a4 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -99,7 +99,7 @@ class AsyncReceiver(Thread):
         maxemptydata = 100
         while True:
             try:
-                data, address = self.userv.skt.recvfrom(8192)
+                data, address = self.userv.skt.recvfrom(65535)
                 if not data and address == None:
                     # Ugly hack to detect socket being closed under us on Linux.
                     # The problem is that even call on non-closed socket can
-- 
2.43.0


From c22379f78fb12343787007660ea45cc0013ed2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 084/115] fix: keep sending after a datagram with an impossible
 port

---
 sippy/Udp_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 9b349a4..d78fb31 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -83,6 +83,10 @@ class AsyncSender(Thread):
                         return
                     if why.errno not in (EWOULDBLOCK, ENOBUFS, EAGAIN):
                         break
+                except Exception:
+                    # Port out of range, etc.
+                    dump_exception('Udp_server[%d]: unhandled exception when sending outgoing data' % getpid())
+                    break
                 sleep(0.01)
         self.userv = None
 
-- 
2.43.0


From bbdd734373b61e0457ef69f7d30e8163e24d94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 085/115] fix: keep the number of workers asked for

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index d78fb31..8a41c27 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -149,7 +149,7 @@ class Udp_server_opts(Network_server_opts):
     def __init__(self, *args, family = None, o = None):
         super().__init__(*args, o=o)
         if o != None:
-            self.family = o.family
+            self.family, self.flags, self.nworkers = o.family, o.flags, o.nworkers
             return
         if family == None:
             if self.laddress != None and self.laddress[0].startswith('['):
-- 
2.43.0


From 94ef48c48b1703437414e9bd540e58e74d5a2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:38 +0000
Subject: [PATCH 086/115] fix: terminate relay commands given as objects with a
 newline

---
 sippy/Rtp_proxy/Client/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Client/stream.py b/sippy/Rtp_proxy/Client/stream.py
index 1a7bc39..69b5d1f 100644
--- a/sippy/Rtp_proxy/Client/stream.py
+++ b/sippy/Rtp_proxy/Client/stream.py
@@ -68,7 +68,7 @@ class Rtp_proxy_client_stream(Rtp_proxy_client_net):
             self.rtpp_class._reconnect(self, self.address)
         if isinstance(command, Rtp_proxy_cmd):
             command = str(command)
-        elif not command.endswith('\n'):
+        if not command.endswith('\n'):
             command += '\n'
         self.wi.put((command, result_callback, callback_parameters))
 
-- 
2.43.0


From 8f407334d19d65091185246ec25b220b61b2c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:18 +0000
Subject: [PATCH 087/115] fix: read relay replies over a stream to their end

---
 sippy/Rtp_proxy/Client/Worker/external.py | 21 +++++++++++++++++++--
 sippy/Rtp_proxy/Client/Worker/internal.py |  6 ++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/sippy/Rtp_proxy/Client/Worker/external.py b/sippy/Rtp_proxy/Client/Worker/external.py
index 097c99d..30d4d23 100644
--- a/sippy/Rtp_proxy/Client/Worker/external.py
+++ b/sippy/Rtp_proxy/Client/Worker/external.py
@@ -34,6 +34,23 @@ from sippy.Core.EventDispatcher import ED2
 
 _MAX_RECURSE = 10
 
+def recv_reply(s):
+    # The reply ends with a newline and can come in several pieces, it can
+    # also have several lines, in which case they are sent together.
+    rval = b''
+    while not rval.endswith(b'\n'):
+        data = s.recv(1024)
+        if len(data) == 0:
+            return None
+        rval += data
+        while len(data) > 0:
+            try:
+                data = s.recv(1024, socket.MSG_DONTWAIT)
+            except socket.error:
+                break
+            rval += data
+    return rval
+
 class RTPPLWorker_external(Thread):
     daemon = True
     userv = None
@@ -74,8 +91,8 @@ class RTPPLWorker_external(Thread):
                 raise why
         while True:
             try:
-                rval = self.s.recv(1024)
-                if len(rval) == 0:
+                rval = recv_reply(self.s)
+                if rval is None:
                     self.s = None
                     return self.send_raw(command, _recurse, stime)
                 rval = rval.decode('ascii').strip()
diff --git a/sippy/Rtp_proxy/Client/Worker/internal.py b/sippy/Rtp_proxy/Client/Worker/internal.py
index d45635b..fa62741 100644
--- a/sippy/Rtp_proxy/Client/Worker/internal.py
+++ b/sippy/Rtp_proxy/Client/Worker/internal.py
@@ -32,6 +32,8 @@ from sippy.Time.MonoTime import MonoTime
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
 
+from .external import recv_reply
+
 class RTPPLWorker_internal(Thread):
     daemon = True
     userv = None
@@ -57,8 +59,8 @@ class RTPPLWorker_internal(Thread):
             else: break
         while True:
             try:
-                rval = self.s.recv(1024)
-                if len(rval) == 0:
+                rval = recv_reply(self.s)
+                if rval is None:
                     raise socket.error('Connection closed')
                 rval = rval.decode('ascii').strip()
             except socket.error as why:
-- 
2.43.0


From 6b361d243866ef33dba081b85908392f82a9ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 088/115] fix: list calls in progress

---
 sippy/B2B/SimpleAPI.py | 2 +-
 sippy/b2bua.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..07d4354 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -54,7 +54,7 @@ class B2BSimpleAPI(CLIConnectionManager):
         if cmd == 'l':
             res = 'In-memory calls:\n'
             total = 0
-            for (cid, sname), uaast, uaost in ccm.listActiveCalls():
+            for cid, sname, uaast, uaost in ccm.listActiveCalls():
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 55de1c7..a900142 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -625,7 +625,7 @@ class CallMap(object):
             else:
                 r.append(None)
             if cc.uaO != None:
-                (_h, _p), _t = cc.uaA.getRAddr0()
+                (_h, _p), _t = cc.uaO.getRAddr0()
                 r.append((cc.uaO.state.sname, _t, _h, _p,
                          cc.uaO.getCLI(), cc.uaO.getCLD()))
             else:
-- 
2.43.0


From 86a0595893d307ddbc242cd2dc65a9fe58bd7884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 089/115] fix: make d * disconnect all calls

---
 sippy/B2B/SimpleAPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 07d4354..014c23b 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -104,7 +104,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
-- 
2.43.0


From 30d670c54c3716c7fb7ef361a5def027cca5b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 090/115] fix: list transactions

---
 sippy/B2B/SimpleAPI.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 014c23b..2e89d15 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -72,10 +72,10 @@ class B2BSimpleAPI(CLIConnectionManager):
             return False
         if cmd == 'lt':
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             clim.send(res)
             return False
@@ -86,13 +86,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
-- 
2.43.0


From 0541739b02bb394a6c8619fcbbcfd88a714210d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 091/115] fix: answer an r command with a malformed id

---
 sippy/B2B/SimpleAPI.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2e89d15..a5fdd49 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -119,8 +119,12 @@ class B2BSimpleAPI(CLIConnectionManager):
             if len(args) not in (1, 2):
                 clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
                 return False
-            idx = int(args[0])
-            media_index = int(args[1]) if len(args) == 2 else 0
+            try:
+                idx = int(args[0])
+                media_index = int(args[1]) if len(args) == 2 else 0
+            except ValueError:
+                clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
+                return False
             dlist = [x for x in ccm.ccmap if x.id == idx]
             if len(dlist) == 0:
                 clim.send('ERROR: no call with id of %d has been found\n' % idx)
-- 
2.43.0


From e017e8826fd1f1e737935c828e0dbd0516f294c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 092/115] fix: close a command connection that fails

---
 sippy/CLIManager.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 1f9c47c..baeb238 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -29,7 +29,7 @@ from __future__ import print_function
 
 from os import remove, chown, chmod, pipe, read, write, close
 import socket
-from errno import EPIPE, ENOTCONN, EBADF, ECONNABORTED
+from errno import ENOTCONN, EBADF, ECONNABORTED
 from select import poll, POLLIN, POLLNVAL
 
 from threading import Thread, Condition
@@ -194,12 +194,9 @@ class _CLIManager_w(Thread):
             while True:
                 try:
                     res = self.clientsock.send(wbuffer)
-                except BrokenPipeError:
-                    self.clim = None
-                    return
-                except socket.error as why:
-                    if why.errno != EBADF:
-                        raise
+                except socket.error:
+                    # The other side is gone, or we have closed the connection
+                    ED2.callFromThread(self.clim.shutdown)
                     self.clim = None
                     return
                 if res == len(wbuffer):
@@ -243,10 +240,9 @@ class _CLIManager_r(Thread):
         while True:
             try:
                 data = self.clientsock.recv(1024)
-            except socket.error as msg:
-                if msg.errno in (EBADF,):
-                    break
-                raise
+            except socket.error:
+                ED2.callFromThread(self.clim.shutdown)
+                break
             if len(data) == 0:
                 ED2.callFromThread(self.clim.shutdown)
                 break
-- 
2.43.0


From b1f58b95403e41e2147db2df3eaad555b40cd793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 093/115] fix: answer the commands of a client that has
 finished sending

---
 sippy/CLIManager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index baeb238..775f792 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -244,7 +244,9 @@ class _CLIManager_r(Thread):
                 ED2.callFromThread(self.clim.shutdown)
                 break
             if len(data) == 0:
-                ED2.callFromThread(self.clim.shutdown)
+                # Let the answers out first, the other side may have only
+                # finished sending
+                ED2.callFromThread(self.clim.close)
                 break
             try:
                 rbuffer += data.decode('ascii')
-- 
2.43.0


From 1b506728e549f51edc471ee5cd23d30200ab6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 094/115] fix: allow non-ASCII characters in commands and
 answers

---
 sippy/CLIManager.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 775f792..5fe6dbc 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -236,7 +236,7 @@ class _CLIManager_r(Thread):
         self.start()
 
     def run(self):
-        rbuffer = ''
+        rbuffer = b''
         while True:
             try:
                 data = self.clientsock.recv(1024)
@@ -248,14 +248,10 @@ class _CLIManager_r(Thread):
                 # finished sending
                 ED2.callFromThread(self.clim.close)
                 break
-            try:
-                rbuffer += data.decode('ascii')
-            except UnicodeDecodeError:
-                ED2.callFromThread(self.clim.shutdown)
-                break
-            while rbuffer.find('\n') != -1:
-                cmd, rbuffer = rbuffer.split('\n', 1)
-                cmd = cmd.strip()
+            rbuffer += data
+            while rbuffer.find(b'\n') != -1:
+                cmd, rbuffer = rbuffer.split(b'\n', 1)
+                cmd = cmd.decode('utf-8', 'replace').strip()
                 if len(cmd) == 0:
                     continue
                 ED2.callFromThread(self.clim.handle_cmd, cmd)
@@ -285,7 +281,7 @@ class CLIManager(object):
         if self.wthr is None:
             return
         if not isinstance(data, _uobj):
-            data = data.encode('ascii')
+            data = data.encode('utf-8', 'replace')
         self.wthr.send(data)
 
     def write(self, data):
-- 
2.43.0


From c48639edd656f952f46de2b71687801da47ee32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 095/115] fix: keep accepting command connections after a
 failure

---
 sippy/CLIManager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 5fe6dbc..7df0cd0 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -33,6 +33,7 @@ from errno import ENOTCONN, EBADF, ECONNABORTED
 from select import poll, POLLIN, POLLNVAL
 
 from threading import Thread, Condition
+from time import sleep
 
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
@@ -83,8 +84,9 @@ class _Acceptor(Thread):
                     continue
                 elif why.errno == EBADF:
                     break
-                else:
-                    raise
+                dump_exception('CLIConnectionManager: unhandled exception accepting incoming connection')
+                sleep(0.1)
+                continue
             except Exception:
                 dump_exception('CLIConnectionManager: unhandled exception accepting incoming connection')
                 break
-- 
2.43.0


From 955432fd66a2c788b405ecde352d23b8cde7a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:30 +0000
Subject: [PATCH 096/115] fix: answer a websocket client on its own connection

---
 sippy/SipTransactionManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 4f291ca..ed2cbb3 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -339,7 +339,7 @@ class SipTransactionManager(object):
             except Exception as exception:
                 self.l1rcache[checksum] = SipTMRetransmitO()
                 if isinstance(exception, SipParseError) and exception.sip_response is not None:
-                    self.transmitMsg(server, exception.sip_response, ra.address, checksum)
+                    self.transmitMsg(server, exception.sip_response, (ra.received, ra.address[1]), checksum)
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
                 return
             call_id = tids[0][0]
@@ -350,7 +350,7 @@ class SipTransactionManager(object):
             if ra.transport != 'wss' and self.nat_traversal and rport != aport \
               and (check1918(ahost) or check7118(ahost)):
                 req.nated = True
-            if ahost != rhost:
+            if ahost != rhost or ra.transport == 'wss':
                 via0.params['received'] = ra.received
             else:
                 # Whatever is there has not been put by us
-- 
2.43.0


From 0d5a36d3941b5cf3922ce688e0686372f52d1e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:53 +0000
Subject: [PATCH 097/115] fix: Tell the other leg when a call attempt is given
 up before its INVITE went out

---
 sippy/UacStateIdle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index a091ac2..b21eddf 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -109,5 +109,7 @@ class UacStateIdle(UaStateGeneric):
                 self.ua.disconnect_ts = event.rtime
             else:
                 self.ua.disconnect_ts = MonoTime()
+            # There won't be another chance in the UaStateDead
+            self.ua.emitPendingEvents()
             return (self.ua.UaStateDead, self.ua.disc_cbs, event.rtime, event.origin)
         return None
-- 
2.43.0


From 3c1ad9e7ccce045a5593aebea84255771f7547cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:53 +0000
Subject: [PATCH 098/115] fix: Never account negative times

---
 sippy/UA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index a728ef6..ce4807a 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -473,8 +473,8 @@ class UA(object):
             disconnect_ts = MonoTime()
             disconnected = False
         if self.connect_ts != None:
-            return (disconnect_ts - self.connect_ts, self.connect_ts - self.setup_ts, True, disconnected)
-        return (0, disconnect_ts - self.setup_ts, False, disconnected)
+            return (max(disconnect_ts - self.connect_ts, 0), self.connect_ts - self.setup_ts, True, disconnected)
+        return (0, max(disconnect_ts - self.setup_ts, 0), False, disconnected)
 
     def update_ua(self, msg):
         if msg.countHFs('user-agent') > 0:
-- 
2.43.0


From 27e646d40f92f655ebaaf2e9a11a69f29752e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:53 +0000
Subject: [PATCH 099/115] fix: Delete media streams set up again after a media
 timeout

---
 sippy/Rtp_proxy/Session/side.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..dfabda8 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -68,6 +68,9 @@ class _rtpps_side(object):
     def update(self, up):
         command = 'U'
         up.rtpps.max_index = max(up.rtpps.max_index, up.index)
+        if up.rtpps.media_timeout_index == up.index:
+            # Not gone anymore, has to be deleted along with the others
+            up.rtpps.media_timeout_index = None
         rtpc = up.rtpps.rtp_proxy_client
         rtpq = up.rtpps.rtpp_seq
         options = up.options
-- 
2.43.0


From c0f865ced5088c7c7578659e046149d5ef0edee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:17 +0000
Subject: [PATCH 100/115] fix: Release the call when the description in an ACK
 cannot be used

---
 sippy/UaStateConnected.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index f4f8377..765b72e 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -146,7 +146,12 @@ class UaStateConnected(UaStateGeneric):
             callback(self.ua, req.rtime, self.ua.origin)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                cb_func = partial(self.ua.delayed_remote_sdp_update, event)
+                try:
+                    body = self.ua.on_remote_sdp_change(body, cb_func)
+                except SdpHandlingErrors as ex:
+                    self.ua._sdpUpdateFailed(ex, True)
+                    return None
                 if body is None:
                     return None
             self.ua.rSDP = body.getCopy()
@@ -242,7 +247,10 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
         code, reason, body = event.getData()
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+            try:
+                self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+            except SdpHandlingErrors as ex:
+                self.ua._sdpUpdateFailed(ex, True)
             return None
         self.ua.cancelCreditTimer() # prevent timer leak on body-less re-INVITE
         self.ua.startCreditTimer(event.rtime)
-- 
2.43.0


From 2fba8ca93e96994f01dc8320393a247092885a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:17 +0000
Subject: [PATCH 101/115] fix: Refuse a star as the Contact of an answer to
 INVITE

---
 sippy/SipTransactionManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index ed2cbb3..29dd28a 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -300,7 +300,8 @@ class SipTransactionManager(object):
                 resp.getHFBody('to')
                 if tid[3] == 'INVITE' and 200 <= resp.getSCode()[0] < 400:
                     # Those say where to go next
-                    resp.getHFBodys('contact')
+                    if any(c.asterisk for c in resp.getHFBodys('contact')):
+                        raise SipParseError('No address in Contact')
                     resp.getHFBodys('record-route')
             except Exception as exception:
                 dump_exception(f'can\'t parse SIP response from {ra}', extra = data)
-- 
2.43.0


From 6771f489b76fe8f25c002273800192108943331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:47 +0000
Subject: [PATCH 102/115] fix: Release the caller's leg when the media of a
 call cannot be set up

---
 sippy/UacStateIdle.py |  6 +++++-
 sippy/b2bua.py        | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index b21eddf..82ce828 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -38,6 +38,7 @@ from sippy.SipFrom import SipFrom
 from sippy.SipCallId import SipCallId
 from sippy.SipCSeq import SipCSeq
 from sippy.SipHeader import SipHeader
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UacStateIdle(UaStateGeneric):
     sname = 'Idle(UAC)'
@@ -50,7 +51,10 @@ class UacStateIdle(UaStateGeneric):
             cId, callingID, calledID, body, auth, callingName = event.getData()
             if body is not None:
                 if self.ua.on_local_sdp_change != None and body.needs_update:
-                    self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                    try:
+                        self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                    except SdpHandlingErrors as ex:
+                        self.ua.delayed_local_sdp_update(event, None, ex)
                     return None
             else:
                 self.ua.late_media = True
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index a900142..8e81227 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,7 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.Exceptions.RtpProxyError import RtpProxyError
 from sippy.SdpBody import SdpBody
 from sippy.MultipartMixBody import MultipartMixBody
 
@@ -206,8 +207,15 @@ class CallController(object):
                     self.cld = re_replace(self.global_config['static_tr_in'], self.cld)
                     event.data = (self.cId, self.cli, self.cld, body, auth, self.caller_name)
                 if '_rtp_proxy_clients' in self.global_config:
-                    self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
-                      notify_tag = quote('r %s' % str(self.id)))
+                    try:
+                        self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
+                          notify_tag = quote('r %s' % str(self.id)))
+                    except RtpProxyError as ex:
+                        fevent = CCEventFail((ex.code, ex.msg), rtime = event.rtime)
+                        fevent.reason_rfc3326 = ex.getReason()
+                        self.uaA.recvEvent(fevent)
+                        self.state = CCStateDead
+                        return
                     self.rtp_proxy_session.callee.raddress = (self.remote_ip, 5060)
                 self.eTry = event
                 self.state = CCStateWaitRoute
-- 
2.43.0


From c166c8d03b279749b62ff39ea8063586d7c3e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:47 +0000
Subject: [PATCH 103/115] fix: Refuse unusable ICE and DTLS parameters, strip
 all of them

---
 sippy/Rtp_proxy/Session/side.py           |  4 ++++
 sippy/Rtp_proxy/Session/subcommand.py     | 14 ++++++--------
 sippy/Rtp_proxy/Session/subcommand_ice.py | 10 ++++++----
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index dfabda8..496c6ad 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -175,6 +175,7 @@ class _rtpps_side(object):
         else:
             options = ''
         otherside = self.getother(rtpps)
+        ups = []
         for si, sect in enumerate(sects):
             if sect.c_header.atype == 'IP6':
                 sect_options = '6' + options
@@ -196,6 +197,9 @@ class _rtpps_side(object):
             if self.deice:
                 up.subcommands.append(subcommand_deice(sdp_bc, sect))
             up.result_callback = partial(self._sdp_change_finish, sdp_body, sect, sects, result_callback)
+            ups.append(up)
+        # Not before it's certain that all sections are usable
+        for up in ups:
             self.update(up)
         return
 
diff --git a/sippy/Rtp_proxy/Session/subcommand.py b/sippy/Rtp_proxy/Session/subcommand.py
index 7ba494d..ad40467 100644
--- a/sippy/Rtp_proxy/Session/subcommand.py
+++ b/sippy/Rtp_proxy/Session/subcommand.py
@@ -47,11 +47,9 @@ class subcommand():
         return None
 
     def _sdp_attrs_rm(self, sdp_bc, sect, attrs_rm):
-        rmlist = []
         for obj in sect, sdp_bc:
-            for a_header in [x for x in obj.a_headers if x.name in attrs_rm and x.name not in rmlist]:
+            for a_header in [x for x in obj.a_headers if x.name in attrs_rm]:
                 obj.a_headers.remove(a_header)
-                rmlist.append(a_header.name)
 
     def fin_sdp_sect(self):
         pass
@@ -88,9 +86,9 @@ class subcommand_dedtls(subcommand):
         for atr in (ah for ah in sect.a_headers + sdp_bc.a_headers \
                     if ah.name in DTLS_ATTRS and ah.name not in adict):
             adict[atr.name] = atr.value
-        if 'setup' not in adict:
+        if not adict.get('setup'):
             raise SdpParseError('Missing DTLS connection mode parameter')
-        if 'fingerprint' not in adict:
+        if not adict.get('fingerprint'):
             raise SdpParseError('Missing DTLS fingerprint parameter')
         asetup = adict['setup']
         if asetup in ('active', 'actpass'):
@@ -100,9 +98,9 @@ class subcommand_dedtls(subcommand):
         else:
             raise SdpParseError(F'Unknown connection mode: "{asetup}"')
         s_dtls += F' {adict["fingerprint"]}'
-        if 'ssrc' in adict:
-            ssrc = adict['ssrc'].split(None, 1)[0]
-            s_dtls += F' {ssrc}'
+        ssrc = (adict.get('ssrc') or '').split(None, 1)
+        if len(ssrc) > 0:
+            s_dtls += F' {ssrc[0]}'
         super().__init__(s_dtls)
 
     def handle_results(self, results, ur):
diff --git a/sippy/Rtp_proxy/Session/subcommand_ice.py b/sippy/Rtp_proxy/Session/subcommand_ice.py
index 025876f..d6a5336 100644
--- a/sippy/Rtp_proxy/Session/subcommand_ice.py
+++ b/sippy/Rtp_proxy/Session/subcommand_ice.py
@@ -73,12 +73,14 @@ class subcommand_deice(subcommand):
         adict = dict([(x.name, x.value) for x in sect.a_headers
                         if x.name in ICE_ATTRS])
         for rattr in ('ice-ufrag', 'ice-pwd'):
-            if rattr not in adict:
+            if not adict.get(rattr):
                 raise SdpParseError(f'Missing ICE {rattr} parameter')
         super().__init__(f'{self.i_mod} A {adict["ice-ufrag"]} {adict["ice-pwd"]}')
         for cand in (x.value for x in sect.a_headers
                         if x.name == 'candidate'):
-            pts = cand.split(None, 4)
+            pts = (cand or '').split(None, 4)
+            if len(pts) < 5:
+                raise SdpParseError(f'Malformed ICE candidate: "{cand}"')
             if pts[2].lower() != 'udp':
                 continue
             if pts[4].startswith('192.') and not pts[4].startswith('192.168.'):
@@ -96,6 +98,6 @@ class subcommand_deice(subcommand):
     def sdp_sect_fin(self, sdp_bc, sect):
         self._sdp_attrs_rm(sdp_bc, sect, ICE_ATTRS_RM)
         for a in [a for a in sect.a_headers if a.name == 'ssrc']:
-            ssrc, attr = a.value.split(None, 1)
-            if not attr.lower().startswith('msid:'): continue
+            attr = (a.value or '').split(None, 1)[1:]
+            if len(attr) == 0 or not attr[0].lower().startswith('msid:'): continue
             sect.a_headers.remove(a)
-- 
2.43.0


From 8a9a448e2f0cb81f470b63d7cc1eae145a46de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:20 +0000
Subject: [PATCH 104/115] fix: Know the log file before starting to write it

---
 sippy/SipLogger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index f850ddb..f3556e9 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -154,8 +154,9 @@ class SipLogger(object):
             self.wi_available = Condition()
             self.wi = []
             if bend != 'syslog':
-                self.logger = AsyncLogger(app, self)
+                # The logger opens it as soon as it's started
                 self.logfile = os.environ.get('SIPLOG_LOGFILE_FILE', logfile)
+                self.logger = AsyncLogger(app, self)
                 self.signal_handler = LogSignal(self, SIGUSR1, self.reopen)
             else:
                 self.logger = AsyncLoggerSyslog(app, self)
-- 
2.43.0


From 62eab38a47ce199aabf186a22b994832779ac616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:20 +0000
Subject: [PATCH 105/115] fix: Never discard a request to reopen the log

---
 sippy/SipLogger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index f3556e9..0205d6d 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -191,8 +191,9 @@ class SipLogger(object):
         if len(self.wi) > 1000:
             # Discard some items, as the writer doesn't seems to be able
             # to keep up pace with incoming requests
-            self.discarded += len(self.wi) - 1000
-            self.wi = self.wi[-1000:]
+            nwi = len(self.wi)
+            self.wi = [x for x in self.wi[:-1000] if x[0] != 'write'] + self.wi[-1000:]
+            self.discarded += nwi - len(self.wi)
             discarded = True
         self.wi.append(('write', args, kwargs))
         self.wi_available.notify()
-- 
2.43.0


From 3cb8ef331c0b39cffbd4746829b5c0eb6edb5675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:45 +0000
Subject: [PATCH 106/115] fix: Release a transferred leg once, when the REFER
 is settled

---
 sippy/UaStateConnected.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 765b72e..4f8076c 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -321,5 +321,8 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
 
     def rComplete(self, resp):
+        if resp.getSCode()[0] < 200:
+            # The transfer has not been settled yet
+            return
         req = self.ua.genRequest('BYE')
         self.ua.newTransaction(req)
-- 
2.43.0


From aa6e656f16480b5b5682035045fbd3881a2cdfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:45 +0000
Subject: [PATCH 107/115] fix: Release the transferring leg when the REFER
 arrives during its update

---
 sippy/UasStateUpdating.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index a99eab8..2ee34a0 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -50,6 +50,7 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
         also = req.getHFBody('refer-to').getCopy()
+        self.ua.newTransaction(self.ua.genRequest('BYE'))
         self.ua.cancelCreditTimer()
         return self._disconnectFromRequest(req, also, copy_reason = False)
 
-- 
2.43.0


From ebd8b9481f4ea49ef890bec88a6657a3f0de8d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:45 +0000
Subject: [PATCH 108/115] fix: Copy the media of a side that has no stream yet

---
 sippy/Rtp_proxy/Session/side.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 496c6ad..88e460e 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -256,7 +256,7 @@ class _rtpps_side(object):
     def _copy(self, rtpps, remote_ip, remote_port, result_callback = None, index = 0):
         if not self.session_exists:
             up = update_params()
-            up.rtpps = self
+            up.rtpps = rtpps
             up.index = index
             up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
             self.update(up)
-- 
2.43.0


From 02b03d56576d432cf465fd134498d2dba77f38ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:45 +0000
Subject: [PATCH 109/115] fix: Record without flags by default

---
 sippy/Rtp_proxy/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index a6d2611..c0bffea 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -117,7 +117,7 @@ class Rtp_proxy_session(object):
     def copy_callee(self, remote_ip, remote_port, result_callback = None, index = 0):
         return self.callee._copy(self, remote_ip, remote_port, result_callback, index)
 
-    def start_recording(self, rname=None, result_callback=None, index=0, rflags=None, only_a=False):
+    def start_recording(self, rname=None, result_callback=None, index=0, rflags='', only_a=False):
         def make_command(side):
             t1 = self.from_tag if side == 'a' else self.to_tag
             t2 = self.to_tag if side == 'a' else self.from_tag
-- 
2.43.0


From b1be09129d513a348a433db74138782297304683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:45 +0000
Subject: [PATCH 110/115] fix: Report failed session commands of the RTPproxy

---
 sippy/Rtp_proxy/Session/side.py | 18 ++++++++++++++----
 sippy/Rtp_proxy/session.py      | 10 +++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 88e460e..eb13de6 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -121,14 +121,21 @@ class _rtpps_side(object):
         ur = up.process_rtpp_result(result)
         self.rinfo_hst.append(ur)
 
-    def __play(self, prompt_name, times, result_callback, index, result, rtpps):
+    def _cmd_failed(self, result_callback):
+        if result_callback is not None:
+            ED2.callFromThread(result_callback, None)
+
+    def __play(self, prompt_name, times, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            self._cmd_failed(result_callback)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'P%d %s %s %s %s %s' % (times, '%s-%d' % (rtpps.call_id, index), prompt_name, self.codecs, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
 
     def _play(self, rtpps, prompt_name, times = 1, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            self._cmd_failed(result_callback)
             return
         otherside = self.getother(rtpps)
         if not otherside.session_exists:
@@ -142,7 +149,7 @@ class _rtpps_side(object):
 
     def _stop_play(self, rtpps, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            self._cmd_failed(result_callback)
             return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'S %s %s %s' % ('%s-%d' % (rtpps.call_id, index), from_tag, to_tag)
@@ -263,7 +270,10 @@ class _rtpps_side(object):
             return
         self.__copy(remote_ip, remote_port, result_callback, index, None, rtpps)
 
-    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps):
+    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            self._cmd_failed(result_callback)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'C %s udp:%s:%d %s %s' % ('%s-%d' % (rtpps.call_id, index), remote_ip, remote_port, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index c0bffea..20811f6 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -137,15 +137,19 @@ class Rtp_proxy_session(object):
             return
         first_stage(result='dummy', rtpps=None)
 
-    def _start_recording_a(self, make_command, next_stage, result, rtpps):
+    def _start_recording_a(self, make_command, next_stage, result, rtpps, ex = None):
         if result is None:
-            return next_stage(None)
+            if next_stage is not None:
+                next_stage(None)
+            return
         command = make_command('a')
         return self.rtpp_seq.send_command(command, next_stage)
 
     def _start_recording_o(self, make_command, result_callback, result):
         if result is None:
-            return result_callback(None)
+            if result_callback is not None:
+                result_callback(None)
+            return
         command = make_command('o')
         return self.rtpp_seq.send_command(command, result_callback)
 
-- 
2.43.0


From e3088e229f48178c011bf90fe1fc0ba767b3cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:45 +0000
Subject: [PATCH 111/115] fix: Report missing statistics when the RTPproxy does
 not answer

---
 sippy/Rtp_proxy/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 20811f6..2069931 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -185,9 +185,9 @@ class Rtp_proxy_session(object):
         self.rtp_proxy_client.send_command(command, self.stats_result, (result_callback, callback_parameters))
 
     def stats_result(self, result, args, ex=None):
-        t1 = result.split()
         result_callback, callback_parameters = args
-        if len(t1) == 1:
+        t1 = result.split() if result is not None else ()
+        if len(t1) <= 1:
             result_callback(None, *callback_parameters)
             return
         ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in t1]
-- 
2.43.0


From 06564438128399d438cdc10a77e67c6870d0547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:31 +0000
Subject: [PATCH 112/115] fix: write to the new log file after it has been
 reopened

---
 sippy/b2bua.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 8e81227..79d8690 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -644,8 +644,8 @@ class CallMap(object):
 def reopen(signum, logfile):
     print('Signal %d received, reopening logs' % signum)
     fd = os.open(logfile, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
-    os.dup2(fd, sys.__stdout__.fileno())
-    os.dup2(fd, sys.__stderr__.fileno())
+    for ofd in set(f.fileno() for f in (sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__)):
+        os.dup2(fd, ofd)
     os.close(fd)
 
 def usage(global_config, brief = False):
-- 
2.43.0


From 1237fca4f75b8a9a2a4b81598d1867272fa4277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:09 +0000
Subject: [PATCH 113/115] fix: answer requests inside a call that no handler
 takes

---
 sippy/UaStateGeneric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 6b553cd..f0248a9 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -41,6 +41,7 @@ class UaStateGeneric(object):
         handler = self.recv_request_handlers.get(req.getMethod())
         if handler is not None:
             return handler(self, req)
+        req.sendResponse(501, 'Not Implemented')
         return None
 
     def recvResponse(self, resp, tr):
-- 
2.43.0


From 6623c6ee8e48d61d90e459f07e2c1060212a8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:51 +0000
Subject: [PATCH 114/115] fix: release calls of parties whose Contact names
 another transport

---
 sippy/SipTransactionManager.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 29dd28a..971e255 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -432,16 +432,15 @@ class SipTransactionManager(object):
         t.fcode = None
         t.address, transport = msg.getTarget()
         if userv == None:
-            transport = str(transport)
-            if transport == 'udp':
-                if laddress == None:
-                    t.userv = self.l4r.getServer(t.address)
-                else:
-                    t.userv = self.l4r.getServer(laddress, is_local = True)
-            elif transport in ('ws', 'wss'):
+            # The transport is named by the remote party, so that it can be
+            # anything. What we cannot do goes by UDP.
+            transport = str(transport).lower()
+            if transport in ('ws', 'wss') and '_wss_server' in self.global_config:
                 t.userv = self.global_config['_wss_server']
+            elif laddress == None:
+                t.userv = self.l4r.getServer(t.address)
             else:
-                raise RuntimeError(f'BUG: newTransaction() to unsupported transport: {transport}')
+                t.userv = self.l4r.getServer(laddress, is_local = True)
         else:
             t.userv = userv
         t.data = msg.localStr(t.userv.getSIPaddr(), compact = t.compact)
-- 
2.43.0


From 094b57c835d6cbe8ebb29410e87e6622d63c71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:14 +0000
Subject: [PATCH 115/115] fix: do not let helpers block on their error output

---
 sippy/External_command.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 9c5bc20..a4a8aa8 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -25,7 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from threading import Condition
-from subprocess import Popen, PIPE
+from subprocess import Popen, PIPE, DEVNULL
 from sys import platform
 from threading import Thread, Lock
 from errno import EINTR
@@ -51,10 +51,10 @@ class _Worker(Thread):
         if platform == 'win32':
             need_close_fds = False
         return Popen(self.command, shell = False, stdin = PIPE, \
-          stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+          stdout = PIPE, stderr = DEVNULL, close_fds = need_close_fds)
 
     def stop_helper(self, pipe):
-        for f in (pipe.stdin, pipe.stdout, pipe.stderr):
+        for f in (pipe.stdin, pipe.stdout):
             try:
                 f.close()
             except OSError:
-- 
2.43.0

