#!/usr/bin/env python3
"""Source of properties.jsonl (edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
      'quantifier': {'over': over, 'text': ' '.join(text.split())},
      'why_tests_cant': ' '.join(why.split()),
      'anchors': {'files': files,
                  'state': [{'name': n, 'meaning': m} for n, m in state],
                  'mechanism': [{'name': n, 'where': w} for n, w in mech]}})

TM = 'sippy/SipTransactionManager.py'
UASF = ['sippy/UA.py', 'sippy/UasStateIdle.py', 'sippy/UasStateTrying.py', 'sippy/UasStateRinging.py',
        'sippy/UasStateProgressing.py', 'sippy/UasStateUpdating.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py',
        'sippy/UacStateRinging.py', 'sippy/UacStateCancelling.py', 'sippy/UacStateUpdating.py', 'sippy/UaStateConnected.py',
        'sippy/UaStateDisconnected.py', 'sippy/UaStateFailed.py', 'sippy/UaStateDead.py']

p('C01', 'Outgoing requests: one final outcome, correct retransmission',
  '''Every request the stack sends is retransmitted unchanged at doubling intervals starting at half a second until any response arrives or
  32 seconds pass, and never after that. Its originator is told about every distinct provisional response and about exactly one final outcome:
  the first final response received, or a locally generated 408 when the peer stays silent for 32 seconds (for an INVITE that was answered provisionally: for its expiry time).
  Nothing is delivered to the originator after that outcome, whatever is duplicated, late, reordered or unrelated.''',
  ['schedules', 'fault_sequences', 'inputs'],
  '''for every method, every sequence and timing of responses, every pattern of loss, duplication and reordering of datagrams''',
  '''No existing test creates a transaction; the property quantifies over response sequences, timings and losses.''',
  [TM], [('client transaction state machine and timers A/B/C', TM + ' newTransaction, incomingResponse, timerA/B/C')],
  [('tclient', 'client transactions in progress')])

p('C02', 'Every final answer to an outgoing INVITE is acknowledged',
  '''The final response that ends a pending INVITE the stack sent is answered with an ACK carrying the same Call-ID, From, CSeq number and the answer's To tag:
  for a negative answer it repeats the INVITE's request line and top Via branch and goes where the INVITE went; for a positive one it has a fresh branch and is
  addressed by the answer's Contact and the reversed Record-Route list (inside an established dialog: by that dialog's route set). A repetition of that response within the next 32 seconds is acknowledged again with the same ACK and is not delivered twice.''',
  ['inputs', 'schedules', 'fault_sequences'],
  '''for every final status code, Contact and Record-Route combination (loose and strict routes) and every repetition of the answer within the 32 s retransmission window''',
  '''No existing test sends an INVITE; needs arbitrary route sets, tags and repetition timings.''',
  [TM, 'sippy/SipRequest.py'], [('ACK construction and caching', TM + ' incomingResponse; SipRequest.genACK')])

p('C03', 'Incoming requests are handled once and answers are replayed',
  '''A request received any number of times is handed to the application at most once, and every repetition received while the transaction is alive, and for at least 32 seconds after an answer,
  is answered with exactly the last response sent for it and nothing else. A final response to an INVITE is retransmitted unchanged until its ACK arrives or 32 seconds pass;
  in the former case the application is never told the ACK is missing, in the latter it is told exactly once. Where a repetition interval for provisional answers is set, the latest one is repeated at that interval until the final answer, otherwise never.''',
  ['schedules', 'fault_sequences', 'inputs'],
  '''for every request method, order and timing of duplicates, responses, ACKs and losses''',
  '''Existing tests never deliver a SIP request.''',
  [TM], [('server transaction state machine, response cache', TM + ' handleIncoming, incomingRequest, sendResponse, timerA/D, rCachePurge')],
  [('tserver', 'server transactions'), ('l1rcache/l2rcache', 'digest of recent datagrams to response')])

p('C04', 'Cancellation ends the right call attempt, on both sides',
  '''A CANCEL for a pending incoming INVITE is answered 200 and the INVITE 487, and the application is told once; once the INVITE has been answered finally a CANCEL changes nothing, and for an INVITE never received it is answered 481.
  An incoming INVITE that is not finally answered within its Expires time (300 s by default) is answered 487. When the stack abandons an outgoing INVITE it sends CANCEL with the INVITE's
  Call-ID, From, To, CSeq number, request line and branch, exactly once and only after a provisional response has been received.''',
  ['schedules', 'fault_sequences', 'inputs'],
  '''for every moment of cancelling or expiry relative to provisional and final responses and every loss/duplication pattern''',
  '''No test exercises CANCEL; the interesting cases are races with answers.''',
  [TM, 'sippy/SipRequest.py'] + UASF[2:6], [('CANCEL handling', TM + ' incomingRequest, doCancel, timerE, cancelTransaction; SipRequest.genCANCEL')])

p('C05', 'The caller gets exactly one final answer, and it is the callee\'s',
  '''Every INVITE that is admitted is answered to the caller by exactly one final response. It is 200 only if the callee of the
  current attempt answered 2xx (and it then carries that answer's session description), and otherwise the status of the last attempt that failed, 487 if the caller cancelled, or a locally generated error; provisional answers
  and their bodies are relayed in order, each at most once, and never after the final one.''',
  ['schedules', 'histories', 'fault_sequences', 'inputs'],
  '''for every sequence and timing of callee responses, caller actions, operator disconnects, timer expiries and datagram losses''',
  '''No existing test runs a call; the outcome depends on races between the two legs.''',
  ['sippy/b2bua.py', 'sippy/CCEvents.py'] + UASF, [('event relay between the legs', 'sippy/b2bua.py CallController.recvEvent; UA.emitEvent/emitPendingEvents; Uas*/Uac* states')])

p('C06', 'Both legs of a call end together',
  '''Whenever one side of a call ends (BYE, CANCEL, refusal, timeout, missing ACK, operator or limit disconnect), every other leg that is still alive is released: an answered leg gets a BYE inside its dialog, a pending
  outgoing leg gets CANCEL (and ACK plus BYE if an answer crosses it), a pending incoming leg gets a final response. No dialog that a well-behaved peer believes is established survives the call it belonged to,
  and no BYE or CANCEL is sent for a leg that was already released.''',
  ['schedules', 'histories', 'fault_sequences'],
  '''for every interleaving of terminations from both sides and from inside the controller, with loss and duplication of datagrams''',
  '''No existing test runs a call; needs crossing BYE/CANCEL/200 races.''',
  ['sippy/b2bua.py'] + UASF, [('disconnect propagation', 'CallController.recvEvent/aDisc; UaStateConnected, UacStateCancelling, UasStateProgressing.cancel')])

p('C07', 'Nothing is left behind when calls are over',
  '''After all calls have ended and the protocol's guard times have passed, the call table, the client and server transaction tables and the per-call request consumers are empty, the duplicate-detection cache has drained and no
  call-related timer is pending, whatever happened during the calls; a new call then works as on a fresh start.''',
  ['histories', 'schedules', 'fault_sequences'],
  '''for every history of calls, in any outcome, with any losses, malformed messages and silent peers''',
  '''Leaks only show after whole histories; no test runs any call to its end.''',
  ['sippy/b2bua.py', TM, 'sippy/UaStateDead.py', 'sippy/UA.py'], [('reclamation', 'CallController.aDead/oDead; UaStateDead; timerC/timerD; rCachePurge')],
  [('CallMap.ccmap', 'calls in memory'), ('req_consumers', 'dialog routing table')])

p('C08', 'Call records are exact',
  '''With accounting enabled each leg of a call that reaches the accounting stage produces exactly one Stop record; a Start record, when enabled, is produced only for an answered leg, once, before its Stop, and periodic Alive records only in between.
  The Stop's session time equals the time from answer to release of that leg (zero if never answered, never negative; a release reported by the media relay as silence counts from a minute earlier), and its setup/connect/disconnect times, time of the first ringing, disconnect cause, releasing side, identifiers and numbers match what happened on the wire.''',
  ['histories', 'schedules', 'fault_sequences'],
  '''for every outcome and duration of a call, accounting level and precision, including wall-clock steps and failover''',
  '''No test produces an accounting record.''',
  ['sippy/RadiusAccounting.py', 'sippy/b2bua.py', 'sippy/UA.py'], [('accounting state', 'RadiusAccounting.conn/disc/asend; UA.getAcct; CallController.placeOriginate/aConn/aDisc')])

p('C09', 'Routes are tried in order, one at a time, until one answers',
  '''The destinations returned for a call are tried strictly in the given order, the next only after the current one has failed before the caller was answered, with at most one attempt not yet released at a time.
  Routes with a zero time limit are skipped; trying stops at the first answer, at a redirection, at a hunt-stop status code or when the caller is gone, and if every route fails the caller gets the last failure.''',
  ['histories', 'schedules', 'configurations'],
  '''for every list of routes and parameters and every outcome and timing of each attempt''',
  '''No test places a call through several routes.''',
  ['sippy/b2bua.py', 'sippy/B2B/Route.py'], [('failover', 'CallController.rDone/placeOriginate/recvEvent')])

p('C10', 'Time limits end calls on time',
  '''A connected call is released on both legs when its credit time (the smaller of the granted time and the configured maximum) has elapsed since the answer, and not before. An attempt is abandoned when no answer, no progress or no reply at all has come
  within the corresponding route limit, and not before; wall-clock steps do not move any of these instants.''',
  ['schedules', 'configurations', 'histories'],
  '''for every combination of the limits and every timing of provisional responses, answers and hang-ups''',
  '''No existing test starts any of these timers inside a call.''',
  ['sippy/UA.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/B2B/Route.py', 'sippy/b2bua.py'],
  [('credit/expire/no-progress/no-reply timers', 'UA.startCreditTimer, credit_expires, expires; UacStateIdle.recvEvent; B2BRoute.customize')])

p('C11', 'No call leaves without authorisation',
  '''No message is ever sent to any callee for an INVITE whose source is not in the accepted list (answered 403), which lacks credentials while digest-only authentication is on (401 with a challenge), or for which the RADIUS server has not replied with acceptance
  (refused, failed or still undecided); the caller of a refused call gets 403, or 401 with a challenge when digest authentication is available. Credentials, numbers, addresses and identifiers sent to the server are those of the request; incomplete credentials count as none, and the call's records name the user who was authorised.''',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'],
  '''for every source, credential, configuration and timing of the RADIUS verdict relative to CANCEL and disconnect''',
  '''No test exercises authorisation in the call path.''',
  ['sippy/b2bua.py', 'sippy/RadiusAuthorisation.py', 'sippy/Radius_client.py'], [('admission', 'CallMap.recvRequest/remoteIPAuth; CallController.recvEvent/rDone')])

p('C12', 'Digest credentials are accepted exactly when they are right',
  '''Credentials are accepted if and only if the response matches the username's password, realm, method, URI, body (for auth-int), nonce count and client nonce (where the qop makes them part of it) under the named algorithm, and the nonce was issued by this server for that algorithm
  no more than 32 seconds ago. Any change to any of these, any forged or truncated nonce, and any missing parameter that takes part is a rejection, never an exception.''',
  ['inputs', 'schedules'],
  '''for every algorithm, qop, parameter values, tampering and time since issue''',
  '''The existing test only measures nonce throughput with valid nonces.''',
  ['sippy/SipAuthorization.py', 'sippy/Security/SipNonce.py', 'sippy/SipWWWAuthenticate.py'],
  [('digest calculation and verification', 'SipAuthorization.verify/verifyHA1, DigestCalc*'), ('nonce oracle', 'HashOracle.emit_challenge/validate_challenge')])

p('C13', 'Challenged outgoing calls authenticate once, correctly',
  '''When an outgoing INVITE is challenged with 401 or 407 and credentials are configured, it is repeated exactly once, in the same call with the next CSeq, new branch and the same body, with credentials that a conforming server accepts for the first supported challenge offered;
  a second challenge, an unsupported algorithm or missing credentials make the attempt fail with that answer, and nothing is repeated once the call is given up. On routes without own credentials the challenge is passed to the caller and the caller's Authorization to the callee.''',
  ['inputs', 'histories'],
  '''for every challenge (algorithm, qop, realm, several challenges), credentials and reply sequence''',
  '''No existing test answers a challenge.''',
  ['sippy/UA.py', 'sippy/SipWWWAuthenticate.py', 'sippy/SipAuthorization.py', 'sippy/UacStateTrying.py'], [('challenge handling', 'UA.processChallenge; SipWWWAuthenticate.genAuthHF')])

p('C14', 'Messages and header values survive parsing and copying',
  '''For every well-formed SIP message, parsing and re-emitting it preserves the start line, the sequence and meaning of every header value and the body, and emitting is a fixed point of parsing (for messages whose addresses use sip: and sips: URIs; escapes of characters reserved in URIs may be
  written out plain, an empty reason phrase may be filled in, and a response body is kept for 101 to 399). A copy of a message, header value, address or URI is equal to the original
  whether or not it was parsed before, and changing either never changes the other.''',
  ['inputs'],
  '''for every well-formed message, header, URI and address value, and every interleaving of parsing, copying and modification''',
  '''Two header classes have single-value self-tests; parse/copy laziness is never crossed.''',
  ['sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/SipResponse.py', 'sippy/SipHeader.py', 'sippy/SipURL.py', 'sippy/SipAddress.py', 'sippy/SipVia.py', 'sippy/MsgBody.py'],
  [('lazy parsing and copying', 'SipMsg, SipHeader.getBody/getCopy, Sip*HF')])

p('C15', 'Hostile traffic never disturbs service',
  '''No datagram of text (UTF-8), however malformed, stops or corrupts the server. Other calls in progress proceed exactly as they would have, later calls work normally, and nothing is left behind by the exchanges it starts.
  A request without a readable start line, Via, From, To, Call-ID or CSeq never reaches the application; any other request (not an ACK) gets a final answer, and one whose body is shorter than announced, or whose Content-Length cannot be read, is answered 400 and not acted upon.''',
  ['inputs', 'fault_sequences'],
  '''for every text datagram, including mutations of valid messages in every header and body, at every moment of a call, from strangers and from misbehaving parties of other calls''',
  '''No malformed message is ever delivered by the tests.''',
  [TM, 'sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/Network_server.py', 'sippy/b2bua.py'], [('containment', 'SipTransactionManager.handleIncoming, incomingRequest, refuseRequest, Network_server.handle_read')])

p('C16', 'Session descriptions survive parsing, copying and editing',
  '''Parsing and re-emitting a well-formed session description preserves every line and attribute, session- and media-level, in meaning and order, and emitting is a fixed point; copies are equal and independent.
  Removing formats from a media section removes exactly those formats and their attributes.''',
  ['inputs'], '''for every well-formed session description and multi-part body''',
  '''The existing test parses a few fixed bodies.''',
  ['sippy/SdpBody.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpMedia.py', 'sippy/SdpConnecton.py', 'sippy/SdpOrigin.py', 'sippy/MsgBody.py', 'sippy/MultipartMixBody.py'],
  [('SDP model', 'SdpBody.__init__/__str__/getCopy; SdpMediaDescription.optimize_a')])

p('C17', 'Only permitted payload types pass through',
  '''With a list of permitted payload types configured, no session description relayed to either side, in any message and however wrapped, has an RTP stream with a payload type outside the list (numbers, and names as mapped by the description itself); permitted types keep their order and their attributes, the rest of the description is unchanged,
  and an offer or answer with no permitted type in some RTP stream is refused and never relayed, a refused call leaving nothing behind.''',
  ['inputs', 'configurations', 'histories'],
  '''for every session description, list of permitted types (numbers and names) and direction''',
  '''No test filters a session description.''',
  ['sippy/b2bua.py', 'sippy/SdpMediaDescription.py', 'sippy/UA.py'], [('filter', 'CallController.filter_SDP')])

p('C18', 'Media sessions are set up, rewritten and torn down consistently',
  '''With a media relay configured every relayed session description points at the relay's address and the port it returned for that stream, with the rest intact, for each side and each update; the relay receives commands for a call one at a time in order with that call's identifiers,
  and when the call ends each session it created is deleted exactly once; a silent stream reported by the relay releases the call and is not deleted again. If the relay fails while a call is being set up, the next route is tried or the caller gets an error response and everything is released; if it fails during an update, the update is refused and the call goes on, or the call is released on both legs: it is never left hanging or with one leg up.''',
  ['histories', 'schedules', 'fault_sequences'],
  '''for every session description, update sequence, relay reply, relay failure and timing of the call's end relative to outstanding commands''',
  '''No existing test involves a media session; the only RTPproxy test sends one version query.''',
  ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py', 'sippy/Rtp_proxy/Session/subcommand.py', 'sippy/UA.py', 'sippy/b2bua.py'],
  [('session', 'Rtp_proxy_session.*; _rtpps_side.*')])

p('C19', 'Media-relay control over UDP: one answer per command',
  '''Every command sent to a relay over UDP completes exactly once: with the reply that carries its own cookie, or with a failure after its retransmissions are exhausted. Retransmissions are identical, duplicated, late and foreign replies are ignored,
  and the relay is considered offline after a failure and online again only once it has answered the version and capability queries; what is known of its capabilities and load is what it last reported.''',
  ['schedules', 'fault_sequences', 'histories'],
  '''for every pattern of loss, duplication, delay and reordering of commands and replies''',
  '''No existing test uses the UDP control protocol.''',
  ['sippy/Rtp_proxy/Client/udp.py', 'sippy/Rtp_proxy/client.py'], [('cookie matching and retransmission', 'Rtp_proxy_client_udp.send_command/retransmit/process_reply')])

p('C20', 'Timers fire when due, as often as asked, never after cancel',
  '''A timer never fires before its time, timers fire in order of their due time, a periodic one fires exactly the requested number of times at the requested period, and a cancelled one never fires again, including when cancelled by another callback of the same round.
  A callback that raises, cancels or creates timers does not affect any other timer.''',
  ['schedules', 'histories'],
  '''for every program of creating, cancelling and re-creating timers from inside and outside callbacks''',
  '''The self-tests use two timers.''',
  ['sippy/Core/EventDispatcher.py', 'sippy/Time/Timeout.py'], [('timer heap', 'EventDispatcher2.regTimer/dispatchTimers/loop; EventListener.cancel')])

p('C21', 'Work handed over from other threads and signals runs exactly once',
  '''Every function handed to the event loop from another thread runs exactly once, on the loop's thread, in the order handed over by that thread, also when the loop is stopped and started again meanwhile; a synchronous hand-over returns that call's own result or raises its own exception.
  Every delivered signal runs each handler registered for it at that time once, on the loop's thread, in whatever order handlers were registered and cancelled, and a failing function, timer or handler affects no other.''',
  ['schedules'],
  '''for every number of threads and interleaving, with failures injected''',
  '''Existing self-tests hand over a handful of calls from one thread.''',
  ['sippy/Core/EventDispatcher.py', 'sippy/Signal.py'], [('cross-thread queue', 'EventDispatcher2.callFromThread/callFromThreadSync/dispatchThreadCallback; Signal')])

p('C22', 'Each helper-program request gets its own answer once',
  '''Each request submitted to the external helper pool is written to exactly one helper as one complete block, its callback gets exactly the lines that helper answered to it, exactly once, on the event loop's thread; a request cancelled before it started is never sent and its callback never runs.
  Several helpers work in parallel without mixing requests or answers; a helper that exits costs at most the request it was given, which gets an empty answer.''',
  ['schedules', 'histories'],
  '''for every number of workers, submission/cancel interleaving and answer timing''',
  '''The only self-test hangs at this commit.''',
  ['sippy/External_command.py', 'sippy/Radius_client.py'], [('worker pool', '_Worker.run, External_command.process_command/process_result')])

p('C23', 'Requests inside a call carry the call\'s identity',
  '''Every request sent inside a dialog carries its Call-ID, local and remote tags, a CSeq strictly greater than any used before in that direction (ACK and CANCEL: equal to the INVITE's), a new branch, the route set in the right order and the peer's latest Contact as target, and is sent to the next hop these imply.
  An incoming in-dialog request that is not newer than the last one is refused with 500 and has no effect, one for an unknown dialog with 481, and one with a method the call has no use for is refused at its first copy and has no effect.''',
  ['histories', 'inputs', 'schedules'],
  '''for every dialog history, Record-Route/Contact combination, from either leg''',
  '''No existing test creates a dialog.''',
  ['sippy/UA.py', TM, 'sippy/SipRequest.py', 'sippy/UasStateIdle.py', 'sippy/UacStateTrying.py'], [('dialog state', 'UA.genRequest/recvRequest/isYours; updateRoutes')])

p('C24', 'Mid-call changes reach the other side and are answered',
  '''A mid-call re-INVITE with a changed session description from either side is relayed to the other with that description, and its answer (or refusal) is returned to the requester with the other side's description; an unchanged one is answered locally with the current description.
  Provisional answers to a change are relayed. An INFO arriving while no change is in progress is answered 200 and relayed once with its body. A re-INVITE that crosses another one not yet answered is refused with 491, and a change refused (other than with 408 or 481) leaves the call up with the descriptions agreed before.''',
  ['histories', 'schedules', 'fault_sequences'],
  '''for every sequence and crossing of mid-call requests from both sides, with losses''',
  '''No test has a mid-call request.''',
  ['sippy/UaStateConnected.py', 'sippy/UasStateUpdating.py', 'sippy/UacStateUpdating.py', 'sippy/UA.py'], [('update states', 'UaStateConnected._recvRequestInvite/_recvEventUpdate; UasStateUpdating; UacStateUpdating')])

p('C25', 'Calls cannot loop forever',
  '''The outgoing INVITE's Max-Forwards is one less than the incoming one's, a call arriving with one or zero hops left is refused with 483 and produces no outgoing call, and a request that returns to the instance that sent it is refused with 482.''',
  ['inputs', 'configurations'],
  '''for every Max-Forwards value and every looping topology of this element''',
  '''No test forwards a call.''',
  ['sippy/b2bua.py', TM, 'sippy/SipMaxForwards.py'], [('hop count', 'CallController.placeOriginate'), ('loop detection', TM + ' incomingRequest')])

p('C26', 'The outgoing call is the one the route describes',
  '''The outgoing INVITE's destination, called and calling numbers, caller name, Call-ID, session description, next hop and additional headers are exactly those given by the route (explicit parameter, or the incoming call's value when absent, or nothing when explicitly erased) after the configured number translations,
  and of the incoming INVITE's other headers only the configured pass-through ones appear in it (besides Reason, and Authorization on routes without own credentials). Nothing from one call's or one attempt's customisation appears in another.''',
  ['inputs', 'configurations', 'histories'],
  '''for every route string, translation rule, header configuration and sequence of calls sharing a static route''',
  '''The one routing test needs DNS, and checks five fixed routes.''',
  ['sippy/b2bua.py', 'sippy/B2B/Route.py', 'sippy/UacStateIdle.py'], [('route parsing and customisation', 'B2BRoute.__init__/customize/getCopy'), ('leg construction', 'CallController.placeOriginate; re_replace; UacStateIdle')])

p('C28', 'Configuration means what was written',
  '''Every option set on the command line or read from a configuration file has exactly that value, of the documented type, afterwards; later settings of an option replace earlier ones, the lists of relays and passed headers can be added to. Invalid values and unknown options are refused and leave the configuration unchanged; a configuration that is written out and read back is the same configuration.''',
  ['inputs', 'configurations'],
  '''for every option, value and order of setting''',
  '''The self-test sets half a dozen options and never writes or reads a file.''',
  ['sippy/MyConfigParser.py', 'sippy/b2bua.py', 'sippy/B2B/Transforms.py'], [('option table', 'MyConfigParser.check_and_set/read/write'), ('command line', 'main_func')])

p('C29', 'Time arithmetic is monotonic and consistent',
  '''Timestamps taken later never compare earlier, differences and offsets are exact in elapsed time, copies are independent, conversion to text and back preserves both clocks to a microsecond, and steps of the wall clock never change comparisons or differences.''',
  ['inputs', 'schedules'],
  '''for every sequence of timestamps, wall-clock steps and offsets''',
  '''The self-test prints a few values without checking them.''',
  ['sippy/Time/MonoTime.py'], [('MonoTime', 'sippy/Time/MonoTime.py')])

p('C30', 'Relayed registrations go to the registrar and back intact',
  '''A REGISTER or SUBSCRIBE (outside a dialog) arriving at an instance with a helper proxy configured is forwarded once to that proxy with all its headers and body and one added Via (one hop less, and a Path where the client supports it), and each distinct answer, up to the first final one, is returned to its sender without that Via and otherwise intact; if the proxy stays silent the sender gets 408, with no hops left 483.
  Requests of different senders never get each other's answers.''',
  ['inputs', 'schedules', 'fault_sequences'],
  '''for every message content, number of concurrent requests and loss/duplication pattern''',
  '''No test uses the proxy.''',
  ['sippy/StatefulProxy.py', 'sippy/b2bua.py', TM], [('stateful relay', 'StatefulProxy.recvRequest/recvResponse')])

p('C31', 'Operator commands act on exactly the calls they name',
  '''Each complete non-blank line sent to the command interface is executed once, in the order of its connection, on the event loop's thread, and answered on that connection in the same order, however the bytes are split into packets, whatever characters they are, and whatever other connections do (reset, vanish, stop reading, fail to be accepted, come from refused addresses). A client that has only finished sending still gets its answers; a command that fails closes no connection but its own; a connection whose client is gone is closed. Listing shows every call in progress exactly once with its Call-ID, state, parties and their addresses; disconnecting by Call-ID releases every call with that id and no other, disconnecting all releases all, reporting a media timeout releases the call with that number and no other; malformed and unknown commands are answered with an error and change nothing.''',
  ['inputs', 'schedules', 'histories'],
  '''for every command sequence, packetisation, number of connections and set of calls in progress''',
  '''No test opens the command interface.''',
  ['sippy/B2B/SimpleAPI.py', 'sippy/CLIManager.py', 'sippy/b2bua.py'], [('command interface', 'B2BSimpleAPI.recvCommand; CLIConnectionManager; CLIManager')])

p('C34', 'Keep-alives probe both legs and end dead calls',
  '''With keep-alive enabled a connected leg is probed by a re-INVITE repeating the description last given to it, each time the configured period has passed since the last exchange of descriptions or answered probe, and at no other time; a challenge is answered once with the route's credentials, and the other leg sees nothing of it. When a probe is answered 408, 481 or 486, or not at all, the call is released on both legs: at once if an earlier probe was answered, ten minutes later if it was the first. Every other answer leaves the call as it was.''',
  ['schedules', 'fault_sequences', 'histories'],
  '''for every keep-alive period, answer sequence and interleaving with mid-call requests and hang-up''',
  '''No test runs a call long enough.''',
  ['sippy/UaStateConnected.py', 'sippy/UA.py'], [('keep-alive', 'UaStateConnected.keepAlive/keepAliveResp')])

p('C35', 'Media-relay commands survive parsing and formatting',
  '''Every well-formed relay command string, when parsed and formatted, yields an equivalent command with the same type, call-id, tags, addresses, codecs and options; formatting is a fixed point of parsing. Statistics replies parsed by the accumulator add up field by field.''',
  ['inputs'], '''for every command type and combination of options and arguments''',
  '''No test parses a relay command.''',
  ['sippy/Rtp_proxy/cmd.py'], [('command codec', 'Rtp_proxy_cmd, UpdateLookupOpts, Rtpp_stats')])

p('C36', 'Administrative shutdown drains calls',
  '''On a stop, hang-up-all or restart request every call in progress (stop, hang-up) is released on both legs as by an operator disconnect, or (restart) left to finish; new calls are refused with 503 after stop or restart has been requested and accepted otherwise, and the stop completes within a few seconds, the restart (with the original command line) only once no call is left and within a minute or so after that.''',
  ['histories', 'schedules'],
  '''for every set of calls in any state at the moment of the request''',
  '''No test sends these signals to a running instance.''',
  ['sippy/b2bua.py', 'sippy/Signal.py'], [('shutdown', 'CallMap.discAll/safeStop/safeRestart/executeStop/recvRequest')])

p('C37', 'Answers and requests find their way back through NAT',
  '''Responses go to the address in the request's topmost Via corrected by the address and (when asked, or behind NAT with traversal enabled) port the request really came from, and record them there. With NAT traversal enabled a private Contact is replaced by the source address, so later requests in the
  dialog reach the peer; otherwise Contacts are used as given, and one that names a transport the B2BUA does not have is reached by UDP.''',
  ['inputs', 'configurations'],
  '''for every combination of Via host/port, rport, source address and Contact, with traversal on or off''',
  '''No test delivers a request.''',
  [TM, 'sippy/SipVia.py'], [('source fix-ups', TM + ' handleIncoming; SipVia.getTAddr')])

p('C38', 'Late-offer calls complete in both directions',
  '''An INVITE without a session description is forwarded without one; the callee's offer in its answer is relayed to the caller, the caller's answer in the ACK is delivered to the callee in its ACK exactly once, and only then does the call count as connected for accounting and time limits;
  if the caller never acknowledges, or hangs up first, the callee's leg is acknowledged and released.''',
  ['schedules', 'fault_sequences', 'histories'],
  '''for every timing of ACK, BYE, losses and silence after the answer''',
  '''No test makes a call without an offer.''',
  ['sippy/UaStateConnected.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UasStateProgressing.py', TM], [('delayed ACK', 'UACK state, sendACK; CCEventPreConnect')])

p('C40', 'Media-relay control over streams: ordered, exactly once',
  '''Each command submitted to a relay over a stream socket (local, TCP or the in-process one) is delivered to it whole as one line, in the order of submission where there is one worker. Its callback, if any, runs exactly once on the event loop's thread, with the arguments given and that command's own newline-terminated reply, however long and in whatever pieces it arrives; with none only if the reply is empty, or the relay is away, or it keeps dropping the connection without answering. This holds across connections closed or reset before, inside or after a reply, relay restarts, callbacks that fail and a shutdown with commands pending. A client that checks its relay takes it for usable only while it answers, and finds it again when it returns.''',
  ['schedules', 'fault_sequences'],
  '''for every number of workers (one for the in-process relay), reply delay and connection failure point''',
  '''The existing test issues one query over an in-process connection.''',
  ['sippy/Rtp_proxy/Client/stream.py', 'sippy/Rtp_proxy/Client/Worker/external.py', 'sippy/Rtp_proxy/Client/Worker/internal.py'], [('workers', 'RTPPLWorker_external.run/send_raw')])

p('C41', 'Datagrams pass the UDP transport intact',
  '''Every non-empty datagram handed to the UDP transport is sent once, unmodified, to the address given and from the bound address, and every non-empty datagram received, of any size, is delivered once, unmodified, on the event loop's thread with its true source address; with one worker both happen in order. Temporary socket errors lose nothing, a destination that cannot be reached loses only its own datagrams, and a failing receiver callback only its own.''',
  ['schedules', 'inputs'],
  '''for every size, content, number of sockets and sending threads''',
  '''The existing test exchanges ping/pong strings between two sockets.''',
  ['sippy/Udp_server.py', 'sippy/Network_server.py'], [('sender/receiver threads', 'AsyncSender, AsyncReceiver, Udp_server.handle_read')])

p('C32', 'RTP helper arithmetic is exact',
  '''Media ports handed out are even, inside the configured range, and in the long run every even port of it comes up; a range with no even port, or more attempts than the range has ports, is refused. Audio handed to an RTP output, in any amount and at any sample rate, leaves in packets of exactly one packet time, at most one per packet time, under one source with the codec's payload type, consecutive sequence numbers and timestamps that advance by the audio sent and the periods without any; the payloads decode to that audio, each piece padded with silence to whole packets, and nothing is sent after the end. Audio received comes out in order, each sample once, in pieces of 100 ms at the configured rate, a lost packet replaced by as much silence. Endpoints send to and listen to their current peer only.''',
  ['inputs', 'schedules'],
  '''for every range, codec, packet time and amount of audio''',
  '''Existing tests check one fixed stream per codec.''',
  ['sippy/Network_server.py', 'sippy/Rtp/Params.py', 'sippy/Rtp/OutputWorker.py', 'sippy/Rtp/EPoint.py'], [('port allocator', 'RTP_port_allocator'), ('RTP output', 'sippy/Rtp')])

p('C33', 'Registrations are kept alive',
  '''A registration agent asks for its binding with the expiry it was configured with, answers each usable challenge (up to three in a row) with valid credentials in the header the challenge calls for, and registers again when the time granted to its own binding is over (the requested time where the reply names none that can be read), a minute after any failure or silence. Every success and every failure is reported exactly once, a success with its own binding and the moment of the next registration. CSeq numbers grow under one Call-ID, and once stopped the agent starts no further request and reports nothing more.''',
  ['histories', 'schedules', 'fault_sequences'],
  '''for every sequence of registrar replies, losses and stop moments''',
  '''No test registers.''',
  ['sippy/SipRegistrationAgent.py'], [('agent', 'SipRegistrationAgent')])

p('C42', 'Secure-websocket messages reach the right connection',
  '''Every message received on a websocket connection (plain or TLS) is delivered once, unchanged, in order, in the main thread, with an identity proper to that connection; whatever is sent to that identity goes out on that same connection and no other, once, in order. Messages sent to a closed or unknown connection are dropped without affecting the rest, and so is a failure of the code a message is delivered to. A SIP request is answered on the connection it came by, whatever its Via says. Once shutdown returns the server thread has ended.''',
  ['schedules', 'histories'],
  '''for every number of connections, message interleaving and disconnect moment''',
  '''No test opens a websocket.''',
  ['sippy/Wss_server.py'], [('connection table', 'Wss_server.async_run/monitor_queue')])

p('C43', 'Browsers and plain phones can call each other',
  '''A call between a browser on a secure websocket and a plain phone is gatewayed stream by stream in both directions, for the offer, the answer and every later update: the relay is handed exactly the browser's setup role, fingerprint, stream source, ICE credentials and UDP candidates (wherever in the description they stand) and the browser is handed exactly the credentials, fingerprint and candidates the relay returned for that stream. A plain phone never sees ICE, DTLS or other browser-only attributes and is offered plain RTP; everything else in a description arrives unchanged and in order. A description lacking what the gateway needs, or for which the relay returns an error or too few or too many results, is refused and the call released cleanly; it never reaches the other party half converted. Calls between two plain phones, or between parties that negotiate such attributes among themselves, pass through untouched.''',
  ['inputs', 'histories', 'fault_sequences'],
  '''for every description, candidate list, parameter placement, update sequence and relay reply''',
  '''No existing test involves the gateway sessions or a relay sub-command.''',
  ['sippy/Rtp_proxy/Session/webrtc.py', 'sippy/Rtp_proxy/Session/subcommand.py', 'sippy/Rtp_proxy/Session/subcommand_ice.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py', 'sippy/b2bua.py'], [('conversion', 'subcommand_dtls/dedtls/ice/deice'), ('results', 'update_params.process_rtpp_result')])

p('C44', 'The SIP log is complete, in order and whole',
  '''Every SIP message received and every one sent is handed to the log once, whole, in order, with the peer's address. Everything handed to the log at or above the configured level appears in the log file exactly once, whole and unaltered, under its Call-ID (or the log's own) and its time in the configured format, never against the order in which it was handed over, however many threads write, from the very first record on; what is below the level does not appear. When the log is told to reopen, by call or by SIGUSR1, everything handed over before goes to the old file and everything after to the new one. Only when more than about a thousand records are waiting are records given up, then the oldest ones, and counted. A file that cannot be opened or written for a while does not stop the log once it can again, and once shutdown returns everything is in the file.''',
  ['schedules', 'histories', 'inputs'],
  '''for every interleaving of writers with the log thread, rotations, locks and I/O failures, and every message on the wire''',
  '''The tests write one line through the log's self-test.''',
  ['sippy/SipLogger.py', 'sippy/Signal.py', 'sippy/SipTransactionManager.py'], [('log thread', 'AsyncLogger.run, SipLogger.write_logfile/reopen'), ('messages', 'SipTransactionManager.handleIncoming/transmitData')])

p('C45', 'Transfers and redirections reach the other party',
  '''When one party of an established call asks to transfer it (REFER with Refer-To, or BYE with Also), its request is accepted (REFER 202, BYE 200), its own leg is released and the other party is sent exactly one REFER naming exactly the requested target (display name, URI with its parameters and headers, header parameters) and, as Referred-By, the identity of that leg; once that REFER has a final answer of any kind, or none within the transaction time, and not before, that leg is released with exactly one BYE. A REFER without a target is refused with 400 and changes nothing; one that arrives while the sender's own session update is outstanding ends the update with 487 and releases both legs. A 300, 301 or 302 answer with Contact ends the hunting and reaches the caller with its code, reason and contacts (all of them in order for 300, the first for 301 and 302); one given to a session update reaches the party that asked for the update and leaves the call up. Nothing stays behind.''',
  ['histories', 'inputs', 'fault_sequences'],
  '''for every target, contact list, party, moment and reaction of the other party, with loss''',
  '''No existing test transfers or redirects a call.''',
  ['sippy/UaStateConnected.py', 'sippy/UasStateUpdating.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UacStateUpdating.py', 'sippy/UasStateGeneric.py', 'sippy/b2bua.py'], [('transfer', 'UaStateConnected._recvRequestRefer/_recvEventDisconnectFailRedirect/rComplete'), ('redirection', 'CCEventRedirect, UasStateGeneric._recvEventRedirect')])

p('C46', 'Prompts, recordings, copies and statistics act on the right stream',
  '''Every request to a media session to play or stop a prompt to one side, to copy a side's media elsewhere, to record a stream (one side or both) or to report statistics or the relay's version leads to exactly the relay command that names that session, stream and side in the right order of tags, with the given parameters (and for a prompt the codecs that side last described), once, and its callback gets the relay's answer to that command, once. Commands of one session are sent one at a time, in the order asked for. Where the stream does not exist yet at the relay it is made first, and if that fails the callback is told and the command is not sent; requests that need a side that does not exist report failure without a command. All of it also works without a callback. Deleting the session deletes every stream that was ever made exactly once, after the work already handed over.''',
  ['histories', 'inputs', 'fault_sequences'],
  '''for every sequence of requests on any number of sessions and every answer, error or silence of the relay''',
  '''No existing test issues a session command.''',
  ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py', 'sippy/Rtp_proxy/Cmd/sequencer.py'], [('session commands', 'Rtp_proxy_session.play_*/copy_*/start_recording/stats'), ('stream first', '_rtpps_side._play/_copy'), ('order', 'Rtp_proxy_cmd_sequencer')])

p('C39', 'RADIUS exchanges carry the right attributes',
  '''Each authorisation and accounting request is encoded as one attribute per line in the helper's syntax with each value intact and vendor attributes wrapped as documented, and each reply is decoded to exactly the attribute/value pairs and verdict the helper printed; no value, whatever it contains, can start another line or end the request (line ends in a value are dropped or replaced). A reply without a verdict counts as failure and still reaches the caller.''',
  ['inputs'],
  '''for every attribute name and value a SIP message can carry and every reply''',
  '''No test encodes a RADIUS request.''',
  ['sippy/Radius_client.py', 'sippy/RadiusAuthorisation.py', 'sippy/RadiusAccounting.py', 'sippy/External_command.py'], [('attribute codec', 'Radius_client._prepare_attributes/process_result')])

p('C47', 'The real program runs as a service',
  '''Started as a program, by options, long options or configuration file, the B2BUA serves real endpoints on the address and port it was given (every IPv4 and IPv6 address when none is given): each packet it sends to an endpoint comes from the address and port its Via and Contact name, from which it can be reached, and calls between IPv4 and IPv6 endpoints are answered, refused, cancelled, limited and ended as asked. A second start on a port in use fails and leaves the first undisturbed. In the background it detaches (own session, no terminal, root directory), writes its process ID to the PID file and its output to the log file; after SIGUSR1 all output and the SIP log go to new files. Its control socket lists and disconnects the calls in progress. SIGHUP ends every call and service goes on; SIGUSR2 disturbs nothing; after SIGPROF new calls get 503, calls in progress go on, and once none is left the program starts anew; SIGTERM ends all calls and the process ends with success within seconds, leaving no process, port or control socket behind. Killed at any moment, it can be started again over what it left.''',
  ['histories', 'crash_points', 'schedules'],
  '''for every way of starting it, every set of calls in progress, and every order of signals, kills and commands''',
  '''The tests never start the program as a service, never send it a signal, never use more than one address family in a call.''',
  ['sippy/b2bua.py', 'sippy/misc.py', 'sippy/SipTransactionManager.py', 'sippy/Udp_server.py', 'sippy/SipConf.py', 'sippy/CLIManager.py', 'sippy/B2B/SimpleAPI.py', 'sippy/SipLogger.py', 'sippy/Signal.py'], [('start', 'main_func, misc.daemonize'), ('addresses', 'SipTransactionManager.local4remote'), ('signals', 'CallMap.discAll/toggleDebug/safeStop/safeRestart/GClector, reopen'), ('control socket', 'B2BSimpleAPI, CLIConnectionManager')])

P.sort(key=lambda x: x['id'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
