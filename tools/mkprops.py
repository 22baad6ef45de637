# Writes /verif/properties.jsonl. Kept so that the property texts have one source.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
R='spdmlib/src/requester/'; S='spdmlib/src/responder/'; C='spdmlib/src/common/'
p('C01','Negotiation selects one common, offered protocol suite on both sides',
 'When connection setup completes without tampering, requester and responder hold the same version, capabilities of each other, and algorithm suite, each the preferred member of the intersection of what both sides configured; with no common choice for something the connection needs, setup fails instead. A session uses a secured message version both sides list, where they share one. Whatever a peer or the network answers, the requester never completes setup with a version or algorithm it did not offer, nor with more than one algorithm of a kind.',
 ['configurations','inputs','fault_sequences'],
 'all pairs of version, capability and algorithm sets on the two sides, and all altered, truncated or replaced negotiation responses',
 'The unit tests run one configuration against a canned peer; agreement is a relation between two configurations and two nodes.',
 [R+'get_version_req.rs',R+'get_capabilities_req.rs',R+'negotiate_algorithms_req.rs',S+'version_rsp.rs',S+'capability_rsp.rs',S+'algorithm_rsp.rs','spdmlib/src/protocol/algo.rs','spdmlib/src/message/algorithm.rs','spdmlib/src/message/capability.rs','spdmlib/src/message/version.rs'],
 [('algorithm priority and one-selection tests','spdmlib/src/protocol/algo.rs prioritize/is_valid_one_select'),('algorithm selection','spdmlib/src/responder/algorithm_rsp.rs')],
 [('negotiate_info','selected version, capabilities and algorithms','spdmlib/src/common/mod.rs')],
 ['return value of connection setup','negotiated values both contexts expose','bytes of VERSION/CAPABILITIES/ALGORITHMS'])
p('C02','The responder serves a request only when its prerequisites have happened',
 'In every request history, the responder answers capability, algorithm, authentication, measurement and session-setup requests with anything but an error only after the requests they depend on have completed in the same connection and with the negotiated version in their header, and requests that exist only inside (or only outside) a session are refused elsewhere, as are encapsulated requests unless both sides have announced them. A new version request discards every negotiated value and every session of the previous connection.',
 ['histories','inputs','crash_points'],
 'all sequences of well-formed, repeated, reordered, replayed and malformed requests, inside and outside sessions, including losses of responses',
 'Unit tests drive single handlers with a preset state; the order of messages is a property of histories.',
 [S+'context.rs',S+'version_rsp.rs',S+'capability_rsp.rs',S+'algorithm_rsp.rs',S+'challenge_rsp.rs',S+'key_exchange_rsp.rs',S+'psk_exchange_rsp.rs',C+'mod.rs'],
 [('connection state checks','spdmlib/src/responder/*_rsp.rs check of the connection state'),('dispatch by session phase','spdmlib/src/responder/context.rs')],
 [('connection state','how far the connection has been negotiated','spdmlib/src/common/mod.rs SpdmConnectionState')],
 ['response code answered to each delivered request'])
p('C03','A successful challenge proves the genuine responder signed this transcript',
 'When a challenge succeeds, the holder of the private key of a certificate chain that leads to the provisioned root signed, in answer to this very challenge (its fresh nonce), exactly the negotiation, digest, certificate and challenge messages the requester exchanged. If any of those messages was altered, replayed, reordered or produced by anyone else, the challenge fails; between honest nodes with no fault it succeeds.',
 ['inputs','histories','fault_sequences','configurations'],
 'all message tamperings, replays of earlier exchanges, impostor identities, repeated and interleaved authentication histories',
 'Existing tests use fixed keys and canned exchanges and never a second party that deviates.',
 [R+'challenge_req.rs',S+'challenge_rsp.rs',C+'mod.rs','spdmlib/src/message/challenge.rs'],
 [('transcript M1/M2','spdmlib/src/common/mod.rs calc_req/rsp m1m2'),('signature verification','spdmlib/src/requester/challenge_req.rs verify_challenge_auth_signature')],
 [('message_a, message_b, message_c','transcript parts','spdmlib/src/common/mod.rs')],
 ['result of the challenge call','what the responder signs','what the requester verifies'])
p('C04','Session secrets and protected payloads never appear on the wire or survive',
 'No packet ever carries, unencrypted, a shared secret, a derived key, a pre-shared key, a private nonce state or application data sent through a session, whatever the peer sends, whichever local operation fails and however the session ends. When a session ends, fails or is reset, its keys are erased from the slot that held them.',
 ['histories','fault_sequences','inputs'],
 'all histories with errors, teardown, re-negotiation, local failures and hostile peers',
 'Tests look at values they expect, not at every byte sent in every failing history.',
 [C+'session.rs',C+'key_schedule.rs',C+'mod.rs',S+'context.rs',S+'error_rsp.rs'],
 [('zeroizing key types','spdmlib/src/protocol/algo.rs'),('session teardown','spdmlib/src/common/session.rs teardown / set_default')],
 [('session key material','handshake, application and backup keys','spdmlib/src/common/session.rs')],
 ['every byte handed to the device','key material of a freed session slot'])
p('C05','A key-exchange session exists only between parties that share its keys',
 'If session setup by key exchange succeeds at the requester, the genuine responder signed and keyed this exchange with a transcript equal to the requester\'s, and both sides hold the same keys, each derived from that Diffie-Hellman secret and transcript as the SPDM specification prescribes. The responder treats the session as established only after a finish message proving the same keys and transcript; any altered, replayed or foreign handshake message leaves no established session on the side that saw it, and honest setups succeed.',
 ['inputs','histories','fault_sequences','configurations'],
 'all configurations (version, hash, DHE, AEAD, measurement summary, clear-text handshake), all tamperings and replays, several sessions side by side',
 'Unit tests fix the peer\'s bytes or stub the cryptography to always succeed.',
 [R+'key_exchange_req.rs',R+'finish_req.rs',S+'key_exchange_rsp.rs',S+'finish_rsp.rs',C+'key_schedule.rs',C+'session.rs',C+'mod.rs','spdmlib/src/message/key_exchange.rs','spdmlib/src/message/finish.rs'],
 [('transcripts TH1/TH2','spdmlib/src/common/mod.rs calc_*_transcript_hash'),('key schedule','spdmlib/src/common/key_schedule.rs')],
 [('session runtime and secrets','message_k, message_f, handshake and application secrets','spdmlib/src/common/session.rs')],
 ['result of session setup','session state and exported keys of both sides','keys used to protect packets'])
p('C06','A pre-shared-key session exists only between holders of the same key',
 'If session setup by pre-shared key succeeds on a side, the other side holds the same key and hint and took part with the same transcript and contexts, and all keys are derived from the pre-shared key and transcript as the SPDM specification prescribes. A wrong key, or any altered or replayed message, leaves no established session; honest setups succeed.',
 ['inputs','histories','fault_sequences','configurations'],
 'all PSK configurations, mismatched keys, tampered or replayed exchanges, mixes with other sessions',
 'Tests call PSK handlers with mocked key derivation.',
 [R+'psk_exchange_req.rs',R+'psk_finish_req.rs',S+'psk_exchange_rsp.rs',S+'psk_finish_rsp.rs',C+'key_schedule.rs',C+'session.rs'],
 [('PSK handshake secret','spdmlib/src/common/session.rs generate_handshake_secret'),('finished MAC','spdmlib/src/responder/psk_finish_rsp.rs')],
 [], ['result of session setup','session state and keys of both sides'])
p('C07','A session that demands mutual authentication gets it',
 'When the responder asks for mutual authentication, the session becomes established at the responder only after it verified a signature over this session\'s transcript made by the private key of a requester certificate chain retrieved in this session and leading to its provisioned root; no other finishing message, message order, skipped step or tampering gets around it. Honest mutual authentication succeeds.',
 ['histories','inputs','fault_sequences','configurations'],
 'all orders, omissions and tamperings of the encapsulated exchange and of the finish messages, impostor and untrusted requesters',
 'Tests exercise the encapsulated messages one at a time.',
 [R+'mutual_authenticate.rs',R+'encap_req.rs',R+'encap_certificate.rs',R+'encap_digest.rs',R+'finish_req.rs',S+'encap_rsp.rs',S+'encap_get_certificate.rs',S+'encap_get_digest.rs',S+'finish_rsp.rs',S+'psk_finish_rsp.rs'],
 [('finish signature check','spdmlib/src/responder/finish_rsp.rs verify_finish_req_signature'),('encapsulated flow','spdmlib/src/responder/encap_rsp.rs')],
 [('mut_auth_requested, encap context','progress of mutual authentication','spdmlib/src/common/session.rs, spdmlib/src/common/mod.rs')],
 ['responder session state','signatures verified by the responder'])
p('C08','Measurements returned are what the device signed and reported now',
 'A successful measurement call returns exactly the number or the records the genuine responder\'s device reported for the requested index during that exchange, in order and unmodified; when a signature was requested, the responder\'s key signed exactly the measurement messages exchanged since the last signed one, with this request\'s nonce. Altered, stale, replayed or unsigned measurements are never accepted as signed ones.',
 ['inputs','histories','fault_sequences','configurations'],
 'all measurement counts and sizes, indexes, request attributes, in and out of sessions, with device contents changing between calls and tampering',
 'Tests use one fixed record and do not compare against a device that changes.',
 [R+'get_measurements_req.rs',S+'measurement_rsp.rs','spdmlib/src/message/measurement.rs',C+'mod.rs'],
 [('transcript L1/L2','spdmlib/src/common/mod.rs calc_*_l1l2'),('signature check','spdmlib/src/requester/get_measurements_req.rs verify_measurement_signature')],
 [('message_m','measurement transcript','spdmlib/src/common/mod.rs')],
 ['result and record of the measurement call','device measurement callback','data the responder signs'])
p('C09','Retrieved digests and certificate chains are exactly those provisioned',
 'A successful digest or certificate retrieval, at any portion size and transfer limit, leaves the requester with byte for byte the chain the responder was provisioned with for that slot, whose hash is the digest reported for that slot; a chain whose root is not the provisioned root, whose signatures do not verify or which was altered in transit is never installed as the peer\'s identity.',
 ['inputs','configurations','fault_sequences'],
 'all chain lengths, slots provisioned, message-size limits, and all tamperings of portions',
 'Tests use one chain, one slot and one portion size.',
 [R+'get_certificate_req.rs',R+'get_digests_req.rs',S+'certificate_rsp.rs',S+'digest_rsp.rs',S+'encap_get_certificate.rs',R+'encap_certificate.rs',R+'encap_digest.rs','spdmlib/src/message/certificate.rs','spdmlib/src/message/digest.rs'],
 [('root hash and chain verification','spdmlib/src/requester/get_certificate_req.rs verify_spdm_certificate_chain'),('portioning','spdmlib/src/responder/certificate_rsp.rs')],
 [('peer_info','peer chain accepted so far','spdmlib/src/common/mod.rs')],
 ['peer chain the context holds','digest and certificate messages'])
p('C10','Secured messages arrive intact, in order, at most once, or not at all',
 'Every payload a side accepts from a session is one the other side sent in that session, direction and phase, unmodified, never accepted twice, and in sending order; corrupted, truncated, extended, replayed, reflected, reordered or cross-session packets are never delivered to the message handlers. Without faults every payload sent is delivered.',
 ['schedules','inputs','fault_sequences','histories'],
 'all losses, duplications, reorderings, delays, corruptions and injections of packets across several sessions',
 'Tests encode and decode single messages.',
 [C+'session.rs',C+'mod.rs',C+'spdm_codec.rs','mctp_transport/src/lib.rs','pcidoe_transport/src/lib.rs'],
 [('record layer','spdmlib/src/common/session.rs encode_msg/decode_msg'),('session lookup','spdmlib/src/common/mod.rs')],
 [('sequence numbers','next number in each direction','spdmlib/src/common/session.rs')],
 ['payloads handed to handlers','payloads protected by the sender'])
p('C11','No AEAD key and nonce pair protects two messages; keys are separated',
 'Over any history, no node encrypts two messages under the same key and nonce, and the keys of different sessions, directions and phases (handshake, application, after each key update) differ. Sequence numbers never repeat or wrap under one key.',
 ['histories','schedules','fault_sequences','crash_points'],
 'all histories of sessions, key updates, errors, retries, losses, crashes and sequence numbers near their limit',
 'Nonce reuse is a relation between all messages of a history.',
 [C+'session.rs',C+'key_schedule.rs'],
 [('sequence numbers in nonce','spdmlib/src/common/session.rs encode_msg'),('key derivation labels','spdmlib/src/common/key_schedule.rs')],
 [('sequence number, salt, key','AEAD inputs','spdmlib/src/common/session.rs')],
 ['key and nonce of every AEAD call'])
p('C12','Key update keeps both ends in step',
 'A completed key update leaves both ends of the session with the same fresh keys for the updated direction or directions, derived from the previous ones as the SPDM specification prescribes, sequence numbers restarted and the other direction untouched; messages flow both ways afterwards. An update interrupted at any point (refused, lost, tampered, local failure) never makes an end accept traffic under keys it has retired and never lets both ends report success with different keys.',
 ['histories','fault_sequences','crash_points'],
 'all interleavings of update operations with traffic, losses and failures at each step',
 'Tests call the handler once with stubbed keys.',
 [R+'key_update_req.rs',S+'key_update_rsp.rs',C+'session.rs',C+'key_schedule.rs'],
 [('backup and activation of keys','spdmlib/src/common/session.rs create_data_secret_update/activate_data_secret_update')],
 [('backup keys','keys kept for rollback','spdmlib/src/common/session.rs')],
 ['result of key update','keys used afterwards'])
p('C13','Sessions are isolated and end completely',
 'Operations, errors and teardown in one session never change the keys, counters or state of another, and session identifiers in use are distinct and map to one session. Once a session has ended, failed its handshake or been reset, nothing sent under it is accepted or answered inside it again, and its identifier is not usable until a new handshake allocates it; an orderly end is mutual.',
 ['histories','schedules','fault_sequences'],
 'all interleavings of up to the maximum number of sessions of both kinds, with endings, failures and replays',
 'Tests run at most one session.',
 [C+'session.rs',C+'mod.rs',S+'context.rs',S+'end_session_rsp.rs',R+'end_session_req.rs',S+'heartbeat_rsp.rs'],
 [('session table','spdmlib/src/common/mod.rs get_session_via_id/get_next_avaiable_session'),('teardown','spdmlib/src/common/session.rs')],
 [('session array','slots','spdmlib/src/common/mod.rs')],
 ['session table of both contexts','responses inside sessions'])
p('C14','Failed attempts cost nothing: service resumes once faults stop',
 'However operations fail (loss, tampering, timeouts, device errors, local failures), no session slot stays occupied by a handshake that failed, so that the number of sessions that can be opened never shrinks. Once faults stop, a fresh connection followed by authentication, measurement, a session with traffic and its end succeeds.',
 ['fault_sequences','histories','crash_points'],
 'all fault sequences followed by a fault-free suffix, including crash and restart of either node',
 'Resource leaks and stuck states show only over long failing histories.',
 [C+'mod.rs',C+'session.rs',R+'key_exchange_req.rs',R+'psk_exchange_req.rs',R+'context.rs',S+'key_exchange_rsp.rs',S+'psk_exchange_rsp.rs',S+'finish_rsp.rs'],
 [('teardown on error','spdmlib/src/requester/*, spdmlib/src/responder/*')],
 [('session array','free and occupied slots','spdmlib/src/common/mod.rs')],
 ['session table after failed handshakes','result of a fault-free script after the faults'])
p('C15','No input from a peer or the network makes a node panic',
 'Whatever bytes arrive, in whatever state and configuration, from the network or from an authenticated peer inside a session, the node returns a result: it does not panic, overflow an integer, index out of bounds or exhaust its stack.',
 ['inputs','histories','configurations'],
 'all byte strings as packets and as decrypted payloads, in all reachable states',
 'The shipped tests and fuzz targets start handlers from a few preset states and stub cryptography.',
 ['spdmlib/src/**','codec/src/**','mctp_transport/src/lib.rs','pcidoe_transport/src/lib.rs'],
 [('checked decoding','codec/src/codec.rs Reader/Writer'),('bounds checks','spdmlib/src/message/*')],
 [], ['panics caught at the API boundary'])
p('C16','Every call finishes within a bounded exchange, answers are not awaited forever',
 'Every requester call and every responder step returns after a bounded number of messages and waits, whatever the peer answers and however packets are lost, and a wait never exceeds the timeout the protocol defines for that request, nor gives up before it. The responder sends at most one response per request it receives and nothing unasked.',
 ['inputs','schedules','fault_sequences'],
 'all peers (including ones that answer forever) and all loss and delay patterns',
 'A test that passes says nothing about peers that keep the caller looping.',
 [R+'context.rs',R+'get_certificate_req.rs',R+'mutual_authenticate.rs',R+'handle_error_response_req.rs',R+'get_measurements_req.rs',S+'context.rs'],
 [('loops over portions and encapsulated requests','spdmlib/src/requester/*')],
 [], ['messages sent and virtual time spent per call'])
p('C17','A local failure aborts the operation instead of weakening it',
 'If a local primitive fails during an operation (random numbers, hashing, MAC, signing, verification, encryption, key derivation, key agreement, measurement collection, secrets, device I/O), the operation fails: nothing is sent carrying a missing or placeholder random, signature or MAC, no session becomes established and nothing is reported verified on the strength of the failed step, and the node keeps running.',
 ['fault_sequences','crash_points'],
 'a failure at every call of every local primitive in every operation',
 'No test makes the primitives fail at chosen points of a full exchange.',
 ['spdmlib/src/requester/**','spdmlib/src/responder/**',C+'**','spdmlib/src/crypto/mod.rs','spdmlib/src/secret/mod.rs'],
 [('error propagation','spdmlib/src/error.rs')],
 [], ['results, messages sent and session states after the failed primitive'])
p('C18','Every response is well formed and answers the request it follows',
 'Each message a node sends decodes under the SPDM specification as the response (or an error) to the request just received: matching code, negotiated version, request parameters echoed, sizes as negotiated and within the peer\'s declared limit, with the error codes the specification assigns; responses to requests received in a session are sent in that session and others in clear. The requester accepts a response only if it has the code, version and fields its request calls for.',
 ['inputs','histories','configurations'],
 'all request fields and header values, all configurations, all altered responses',
 'Tests compare a handful of encodings.',
 ['spdmlib/src/message/**',S+'**',R+'**'],
 [('message codecs','spdmlib/src/message/*'),('version and code checks','spdmlib/src/requester/*_req.rs')],
 [], ['request and response bytes'])
p('C19','Vendor and application messages reach their handler and come back unchanged',
 'A vendor-defined or application message sent by the requester is handed to the responder\'s registered handler exactly once with exactly the sent bytes and session, and the handler\'s reply is what the requester gets; messages of one kind are never taken for the other or for protocol messages, at any size the interfaces admit. A handler that fails or replies oddly harms neither the session nor the connection.',
 ['inputs','histories','configurations'],
 'all payload sizes and contents, with and without session, handlers that fail or answer with arbitrary bytes',
 'Only one fixed vendor payload is tested.',
 ['spdmlib/src/message/vendor.rs',R+'vendor_req.rs',S+'vendor_rsp.rs',S+'app_message_handler.rs',S+'context.rs',C+'mod.rs'],
 [('handler registration','spdmlib/src/message/vendor.rs, spdmlib/src/responder/app_message_handler.rs'),('dispatch','spdmlib/src/responder/context.rs')],
 [], ['handler calls and replies'])
p('C20','Transport bindings carry every message unchanged and refuse the rest',
 'Over MCTP and PCI DOE, what one side encapsulates the other decapsulates to the same message and kind (plain or secured), for every size the binding admits, with the sequence-number and padding rules of the binding; packets with a wrong type, vendor, object type or impossible length are rejected without effect.',
 ['inputs','configurations'],
 'all message sizes and contents, all packet headers',
 'Tests use a few sizes.',
 ['mctp_transport/src/lib.rs','mctp_transport/src/header.rs','pcidoe_transport/src/lib.rs','pcidoe_transport/src/header.rs',C+'spdm_codec.rs','codec/src/codec.rs'],
 [('encap/decap','mctp_transport/src/header.rs, pcidoe_transport/src/header.rs')],
 [], ['packets against an independent reading of the bindings'])
p('C21','Nonces, ephemeral keys and session identifiers are fresh',
 'Every nonce, random value and pre-shared-key context a node puts in a message comes from a new draw of its random source for that message, every key exchange uses a newly generated key pair on each side, and no two live sessions share an identifier. A repeated draw is never substituted and a failed draw never replaced by a constant.',
 ['histories','fault_sequences'],
 'all histories of repeated challenges, measurements and sessions, with failures and restarts',
 'Freshness relates all messages of a history to the random source.',
 [R+'challenge_req.rs',R+'key_exchange_req.rs',R+'psk_exchange_req.rs',R+'get_measurements_req.rs',S+'challenge_rsp.rs',S+'measurement_rsp.rs',S+'key_exchange_rsp.rs',S+'psk_exchange_rsp.rs','spdmlib/src/crypto/mod.rs'],
 [('random callback','spdmlib/src/crypto/mod.rs rand')],
 [], ['random fields of every message against the draws'])
import sys
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert x['statement'].count('. ')<=2,(x['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
