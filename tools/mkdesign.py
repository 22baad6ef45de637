#!/usr/bin/env python3
# writes DESIGN.md from the text below, the seeds' meta.json and tools/caught.json
import json,os,glob
V='/verif'
HEAD=r'''# Deterministic simulation of rust-spdm with fault injection

## What runs

One process, one thread, one run: a real `RequesterContext` and a real `ResponderContext` of
`spdmlib`, each over the real `mctp_transport` or `pcidoe_transport` encapsulation, joined by a
simulated link. The system is a two-party protocol with request/response exchanges, timeouts, device
calls and crash points, so every property in `properties.jsonl` has something a schedule or a fault can
decide; none is listed as not applicable.

Seams (all are ones the code already has; **/repo carries no hook**, so `hooks` in MANIFEST.json is
empty and the shipped code is what is simulated):

| nondeterminism | seam | what stands behind it |
|---|---|---|
| network | `SpdmDeviceIo` of each node | packet queues with loss, duplication, delay, reordering, corruption, injection (`world.rs`, `exec.rs`) |
| time | the `timeout` argument of `receive`, `time` callback | a virtual clock; waiting for nothing advances it to the deadline |
| randomness | crypto `rand` callback | seeded stream per node, recorded; can fail |
| cryptography | `crypto::{hash,hmac,aead,asym,dhe,hkdf,cert_operation}::register` | deterministic stand-ins that keep the algebra (a MAC, signature or AEAD tag verifies exactly for what it was made of; DHE secrets agree; HKDF is a function). They record every call and can fail at any call. Their code is `crypto.rs`/`prim.rs` |
| device | `secret::measurement`, `secret::psk`, `secret::asym_sign` | a measurement device whose contents the script changes, keys per node; can fail, can be another device's |
| handlers | `register_app_message_handler`, vendor-defined handler | record the call, reply in several odd ways |
| process | drop and re-creation of a context | crash of either node at a packet or at any seam call; nothing volatile survives |
| scheduling | the responder runs when the requester waits, or when the script says so | any packet order the faults allow |

The requester blocks in `receive` while the responder steps, which is the only interleaving point the
library has; the script may also run responder steps, injections, crashes and clock advances between
requester calls.

**Plan.** A run is a function of a *plan*: configuration (`cfg` lines: versions, capabilities,
algorithms, sizes, chain length, identities, device contents, transport, …), client operations (`op`
lines) and faults (`fault KIND at …`). `gen.rs` draws a plan from one 64-bit seed; `plan.rs` prints and
parses it; `exec.rs` executes it; `check.rs` judges the recorded history while it is made up and after.
Every 97th run of a search is executed a second time and its history compared byte for byte (a
divergence makes the check give no answer rather than a wrong one). A failing plan is minimised
(`min.rs`: drop faults and operations, shrink configuration to defaults, while the same violation of the
same property stays) and written under `/verif/replays/` as the replay file:
`sim/target/debug/spdmsim replay FILE [--verbose]` reproduces it exactly.

**Faults** (counted in each evidence file under `faults_injected`): packet Drop, Dup, Delay, HoldUntil,
Corrupt, Trunc, Extend, SetField, ReplaceOld, Replace, InjectBefore, InjectOldBefore, Reflect; device
SendErr, SendErrDelivered (error reported although the packet went out), RecvErr, ShortRecv; Crash of
either node; Seam failures (a call of rand, hash (all / init / update / finalise / duplicate), HMAC, HMAC
verify, sign, verify, AEAD encrypt / decrypt, HKDF extract / expand, DHE generate / agree, certificate get
/ verify, measurement collection, measurement summary, PSK handshake / master key, vendor handler,
application handler, send, receive fails at its n-th use); Evil / EvilLen: an *authenticated* peer that
changes its own plaintext before protecting it (an insider with valid keys); Forge: a responder whose answer
in the clear says something else *and* is vouched for — the packet is altered and the signature or MAC over
what the requester now holds counts as made by the responder, so that a requester check which a signature
would otherwise shadow (version, slot, layout) is on its own. Operations that are attacks
in themselves: Inject, InjectOld, RawClear, RawSecured, EvilFinish (FINISH messages a correct requester
never sends: without a signature, with a signature nobody made, for another slot), SpoilChain (a responder
that presents and vouches for a chain structure it was not provisioned with), SetSeq (start near the end
of a sequence space), AbandonSid; SetMeas and SetContent change what the device reports between requests,
Carry sends one object of any size (up to the binding's limit), cut, extended or altered, through a
transport binding into room of any size.

**Profiles** (share of the runs of each check, per property weights in `gen.rs`):
honest (no fault, wide configurations), net (loss, delay, duplication), mitm (changes and injects),
local (seam failures), crash, adversary (raw and stale messages at any stage), insider (peer with keys
lies in its plaintext), evil (peer that deviates from the protocol with valid keys), identity (wrong
root, wrong key, another device, mismatched PSK), disorder (operations in any order), limits (sizes,
transfer limits, long chains, many portions, sequence exhaustion), errors (ERROR codes and busy
answers), wild (raw bytes everywhere), mixed (several at once). In all but a few profiles refusable
requests (wrong slot, unknown index) are strewn among the honest ones.

## Against which oracle

`check.rs` replays the history through an *independent reading of DSP0274/DSP0277*: `wire.rs` decodes and
encodes messages without spdmlib, `model.rs` holds the expected transcripts and key schedule. For each
node it keeps a shadow party: connection stage, negotiated values, transcripts A/B/C/M/TH per session
(`exact` while the history determines them), sessions with keys, sequence numbers, outstanding request.
Judgements are of three kinds:

* safety at each event: a message sent must be the correct answer in that state (fields, lengths,
  transcript, signature over exactly the shadow's transcript, keys equal to the prescribed schedule, …),
  a success reported by an operation must be justified by what the peer really did;
* state snapshots through the public interface after each step: session table, keys present, negotiated
  values;
* **obligation** (progress): an operation of an honest script *must succeed* when nothing disturbed it.
  Two forms. (a) No fault has yet fired, or a Recover operation (new connection) happened after the last
  one. (b) *In step*: whatever happened before — losses, attackers, failed operations — if both shadow
  parties hold all this operation needs (same version and algorithms, same transcript where it signs one,
  same session keys and counters), the network is quiet and no fault fires during it, it is owed success.
  (b) is what finds leftovers of failed attempts.

`properties.jsonl` says what each property promises; the judgements that belong to one property are the
cover keys in `about()` at the end of `check.rs` and appear with counts in the evidence (`judged`).
A violation is attributed to the properties it breaks (one event may break several), and a check reports
the violations of its own property only.

## Builds

`spdmlib`'s features change semantics, so the simulator is built four ways: hashed-transcript-data ×
mut-auth. Quick checks split ~48 s of search over three (C07 over the two with mut-auth, C05 over
plain+nomut, hashed+mutauth and hashed+nomut); thorough ones search all four for 10 min. Rates are
5–20 k runs per second on 8 cores, so a quick check is about 300–800 k whole two-party runs; a check
with its build takes 1–2 min. The deciding step is the seeded search; nothing is exhaustive.

## Property by property

| id | how it is decided |
|---|---|
| C01 | after a completed setup both contexts' negotiated values are compared with the model's (highest common version, first common algorithm by priority, AND for opaque …) for random masks; tampered and evil answers (several bits, unoffered bits, unknown versions) must not complete |
| C02 | shadow stage machine for each request served; every request code in every stage (adversary, disorder, wild); version in header; encapsulated requests only where both sides announced them and after a certificate or challenge was answered; after VERSION all sessions gone and negotiated values fresh |
| C03 | for every accepted challenge there must be a signature by the genuine key over exactly the shadow transcript containing this nonce; responder's signature judged over its own transcript; owed success otherwise |
| C04 | every packet is searched for every secret of both nodes (DHE secrets, derived keys, PSK, plaintexts of records); snapshots show slots without session hold no keys |
| C05, C06 | the shadow derives all keys from secret and transcript (own HKDF); keys in contexts, MACs and signatures must equal them; Established only after a FINISH/PSK_FINISH that proves them; owed success |
| C07 | with the mut-auth builds: establishment at the responder only after it verified a signature over this session's transcript under the chain it retrieved and accepted in this session; EvilFinish, replaced messages, stale chains, message order |
| C08 | record returned = what the device handed out in this exchange, for index, all, count, signed and not, in clear and in session; signature over exactly M with this nonce; owed success |
| C09 | chain and digests equal provisioned ones at any portion size; identity installed only when root, signatures and digest fit |
| C10 | every accepted record matches one sent in that session/direction/phase, once, in order; without faults all are delivered |
| C11 | (key, iv) set over all encryptions of a node; keys of sessions/directions/phases pairwise different; SetSeq brings the counter near its end and near byte carries |
| C12 | keys after each exchange equal the prescribed update for each side; wrong acknowledgements, faults at each message and each primitive |
| C13 | fingerprint of all other sessions before/after each step; ids distinct; nothing accepted or answered under a dead id; END_SESSION mutual |
| C14 | slots occupied after failed handshakes (snapshots); in-step obligations; Recover followed by everything |
| C15 | any panic, overflow (debug build), index error, runaway stack or allocation in any run |
| C16 | messages and waits per call counted; each wait exactly the protocol's (ST1, or 2^(CTExponent+1) for the requests answered with cryptography), neither longer nor shorter; responses per request ≤ 1; step and wall limits |
| C17 | every seam fails at any call: the operation must fail, no message with placeholder random, signature or MAC, no state advance; the node goes on |
| C18 | each message sent is decoded by `wire.rs` and compared with the request (code, version, echo fields, lengths, declared limits, error codes); the requester accepts only what `wire.rs` accepts |
| C19 | bytes at the handler = bytes sent; reply = reply; kinds never confused; sizes up to the limit |
| C20 | packet bytes on the wire, and every single call of the bindings' encap / decap / encap_app / decap_app (a wrapper stands between the library and the binding), against an own encoding of the MCTP and PCI DOE bindings; sizes, padding, wrong types and lengths |
| C21 | each random field must be the latest unused draw of the node's random source; each DHE public key new; ids fresh |

'''
TAIL=r'''
## Genuine defects found

55 violations of the tree as given turned out to be defects of the code. Those with a small safe repair
were repaired (`fix:` commits in /repo, listed as `fixed:` in `known-findings.txt` with what failed).
Recorded, not repaired (`known:`): one of C19 — a protocol response that arrives late is returned to the
application as its reply: `receive_secured_message` is the one public receiver of both kinds (an existing
test takes END_SESSION_ACK with it), so telling them apart needs an API change. (The other direction, an
application message taken as the response to a protocol request, is repaired.)

Behaviour judged as *not* contradicting a property as stated, hence neither fixed nor reported: the
mut-auth build's responder asks for mutual authentication whatever the capabilities say; handshake in the
clear with mutual authentication is not implemented (fails closed); the requester insists on a common
measurement specification; `reset_message_k` is never called; `SpdmCodec` `get_size()` panics are pinned by
`should_panic` unit tests; the plain build's message buffers limit transcripts; a failed decode uses up a
sequence number (a lost record ends a session); the requester's copy of the peer chain survives a new
connection; reserved bytes of the chain header are ignored; an unsigned late measurement answer in a
session cannot be told from the right one; KEY_UPDATE answered with ERROR leaves the requester's keys
where they are; after a failed CHALLENGE, GET_DIGESTS may be needed before the next; an encapsulated
chain retrieved in one session may be used for FINISH in another of the same connection; the responder
does not consult its own declared capabilities before it serves; encapsulated certificate portions are
not limited by a small responder transfer size (fails closed).

## False alarms corrected

Obligations were first derived from "no fault fired", which made some failures of the *script* look like
failures of the code: operations whose prerequisites were used up by an earlier operation, messages still
under way when an operation starts (obligations now need a quiet network), requests that the configured
sizes cannot carry, features the peer did not declare. Transcript shadows were first exact where the
specification leaves room (what happens to B, M after a local failure before sending; FINISH in the clear
counted for M); they are now marked inexact there and neither side is judged until the next reset. State
snapshots inside a step judged half-done updates; they are taken between steps only. Each of these was
corrected in the oracle with the judgement kept for the cases that are determined.

## Planted bugs

Each was written from the property text and the code, in a scratch copy, confirmed to build, to pass the
stable tests and to be shown by its demo. The last column says which checks report it (quick search).

| seed | property | what it breaks | needs | caught by |
|---|---|---|---|---|
'''
LIM=r'''
## Mutation campaign

Besides the planted bugs, an instrumented copy of `spdmlib` (each of about 2,300 comparison, constant,
arithmetic and deleted-statement mutants switched by number at run time) was run against the same
simulator outside the checks, to find judgements that were missing. Survivors were read one by one;
the ones that change observable behaviour led to new judgements (in-step obligations, refused requests
among honest ones, timeouts by request, version checks on each response) or to seeds; the rest are
equivalent (dead code, defensive checks behind an earlier one, buffer sizes, log text).

## Limits

* The primitives are stand-ins: nothing is said about `spdmlib_crypto_mbedtls`/ring code, X.509 parsing
  (`x509v3.rs`) and real certificate verification; those have no schedule or fault a simulator could
  order and are pure functions of bytes. The `tdisp` crate is outside the simulated stack.
* One requester and one responder, as the library supports; several sessions, one connection.
* Search is sampling: an unreached corner is not judged. The evidence says what was reached.
* The oracle is one reading of the specification, shared with the code where the specification is silent.
'''
caught={}
try: caught=json.load(open(V+'/tools/caught.json'))
except Exception: pass
rows=[]
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'],m['needs'],caught.get(i,m['property'])))
open(V+'/DESIGN.md','w').write(HEAD+TAIL.rstrip('\n')+'\n'+'\n'.join(rows)+'\n'+LIM)
