#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here, the file is generated)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

CU="pkg/curve/secp256k1.go"; CO="pkg/crypto/commitment/commitment.go"; ZK="pkg/crypto/zkpok/zkpok.go"; HA="pkg/crypto/hash.go"
SY="pkg/sync/server.go"; DS="pkg/arith/distributed_secret.go"; DK="pkg/arith/distributed_key.go"; RE="pkg/arith/reshare.go"
MU="pkg/arith/mult.go"; DH="pkg/arith/checkDH.go"; PO="pkg/arith/poly.go"; TE="pkg/tecdsa/tecdsa.go"; CM="cmd/tecdsa/main.go"; GK="cmd/gen_keys/main.go"; CF="pkg/arith/config.go"

p("C01","The curve group implements the secp256k1 group law on every operand",
"For all group elements, including the neutral element, equal points and pairs of inverse points, and for every non-negative scalar of any size (zero, multiples of the order, values between the order and 2^256, longer ones), addition, negation, scalar multiplication and base multiplication return exactly the element of the secp256k1 group that the mathematics prescribes. Two elements compare equal exactly when they are the same group element. Generator, neutral element and order are the standard ones.",
["inputs","programs"],"all group elements, all non-negative scalars, and all expressions built from the operations",
"The 12 curve tests use a handful of small multiples of the generator; neutral operands of scalar multiplication, inverse pairs, scalars at or above the order and points with short coordinates are never reached.",
[CU],[("case analysis around the affine addition formulas","sGroup.Add in "+CU),("scalar reduction before the C multiplication","sGroup.ScalarMult / ScalarBaseMult in "+CU),("equality","sGroup.Equal in "+CU)],
[("sPoint","affine coordinates, both nil for the neutral element",CU)],["results of the Group operations, read back through Encode"])
p("C02","Curve, commitment, proof and hash operations are pure and safe to share",
"No operation on points, commitments, proofs or hashes changes any of its arguments (including scalars of any length) other than the receiver documented to hold the result, and a result once returned never changes because of later operations. An operation may use one object both as receiver and as operand and still returns the right result. Groups, factories, points, commitments, proofs and scalars may be used by many goroutines at once without data races and with the results of sequential use.",
["inputs","schedules","histories"],"all argument values, all receiver/operand aliasings, all interleavings of concurrent users",
"Tests use each object once, from one goroutine, with scalars shorter than 32 bytes, and never look at an argument again after a call.",
[CU,CO,ZK,HA],[("fresh big.Int results","sGroup.Add/ScalarMult in "+CU),("receiver-only assignment","ElGamal.Compose/Exp/Inverse in "+CO),("fresh neutral element","ElGamalFactory.Neutral in "+CO)],
[("ElGamalFactory.neutral","cached neutral commitment used by IsNeutral",CO)],["arguments and earlier results, re-encoded after every operation; race detector reports"])
p("C03","Points, commitments and proofs survive serialisation in any stream",
"Any sequence of points (including the neutral element), commitments and proofs written one after another to a stream is read back as the same sequence of values, with each decode consuming exactly the bytes its encode produced. This holds however the reader splits the bytes into short reads. Equal values have identical encodings, a failing writer makes encoding return an error, and a stream that ends inside a value makes decoding return an error.",
["inputs","fault_sequences"],"all values, all concatenations, all read fragmentations, all truncation and write-failure points",
"The round-trip tests encode one random value into one bytes.Buffer; the neutral element, concatenated values, short reads, truncation and writer errors are not exercised.",
[CU,CO,ZK],[("length-prefixed encoding","sGroup.Encode/Decode in "+CU),("component-wise encoding","ElGamal.Encode/Decode in "+CO),("proof encoding","ZKEGKnow/ZKEGRefresh Encode/Decode in "+ZK)],(),["bytes written, bytes consumed, values after decoding"])
p("C04","Decoding untrusted bytes is total, bounded and yields only valid elements",
"Decoding an arbitrary byte string as a point, commitment or proof never panics and never allocates memory out of proportion to the bytes actually supplied. It either returns an error or produces a value all of whose points are genuine elements of the secp256k1 group and which can be used in every further operation (verification, composition, encoding) without panicking.",
["inputs"],"all byte strings given to the decoders of points, commitments and proofs",
"Tests only decode what the same test encoded; length fields, off-curve coordinates and truncated inner values never vary.",
[CU,CO,ZK],[("length and curve checks","sGroup.Decode in "+CU),("error propagation from nested decodes","ElGamal.Decode in "+CO+", ZKEGKnow.Decode and ZKEGRefresh.Decode in "+ZK)],(),["decoder result, decoded coordinates, allocation counters, panics"])
p("C05","ElGamal commitments are correct, homomorphic and perfectly binding",
"A commitment to (value, randomness) under base h is the pair (randomness*G, randomness*h + value*G); composing, exponentiating and inverting commitments yields exactly the commitment to the sum, multiple and negation of values and randomness modulo the group order, in any expression. The neutral commitment is the unit of composition and is the only one recognised as neutral. Two commitments compare equal exactly when both value and randomness agree modulo the order.",
["inputs","programs"],"all values, randomness, bases and expressions over commitments",
"Six tests use one base and single-digit values; zero, large and order-sized exponents, neutral operands and nested expressions are not sampled.",
[CO,CU],[("commitment formula","ElGamalFactory.Create in "+CO),("homomorphic operations","ElGamal.Compose/Exp/Inverse in "+CO),("comparison","ElGamal.Equal, ElGamalFactory.IsNeutral in "+CO)],(),["both encoded components of every commitment"])
p("C06","Honest zero-knowledge proofs always verify",
"For every base, value and randomness (including zero and values at or above the group order), a proof of knowledge produced for a matching commitment, and a refresh proof produced for a commitment and its re-randomisation, is accepted by verification. This also holds after the proof has been encoded and decoded, any number of times, with commitments that were themselves transported, and at any other party holding the same base.",
["inputs","histories"],"all witnesses, bases and transports",
"Three tests per proof use one fixed witness of small integers.",
[ZK,CO,HA],[("Schnorr-style responses","NewZKEGKnow, NewZKEGRefresh in "+ZK),("verification equations","ZKEGKnow.Verify, ZKEGRefresh.Verify in "+ZK)],(),["verification result"])
p("C07","Zero-knowledge proofs of false or unknown statements are rejected",
"Verification never accepts a proof for a different statement than the one proved, a proof any of whose parts was altered, a proof made from a wrong witness, or a proof under a different base. It never accepts a proof assembled without the witness, in particular by choosing the responses first, by choosing commitment or announcement after the challenge, or, for refresh proofs, for a commitment to a different value or a multiple of the original. This holds for every kind of proof the library offers.",
["inputs","fault_sequences"],"all statements, proof alterations and prover strategies",
"The tests only try one honest proof against one unrelated commitment.",
[ZK,HA],[("Fiat-Shamir challenge","NewZKEGKnow/Verify, NewZKEGRefresh/Verify in "+ZK),("comparison of both components","ElGamal.Equal in "+CO)],(),["verification result on forged and altered proofs"])
p("C08","Proof nonces and secrets are fresh, full-size, and fail closed",
"Every proof uses blinding values that are independent of each other and of those of every other proof, drawn from the whole scalar range, so that no two proofs (even for the same statement) share a blinding value or reveal the witness. Secret shares, commitment randomness and sharing polynomials are likewise drawn afresh from the whole range by every party in every run. If the system's randomness source fails, an error is returned and no proof is produced.",
["inputs","histories","fault_sequences"],"all witnesses, all sequences of proofs, all failures of the randomness source",
"Tests produce a few proofs and never compare their randomness or make the randomness source fail.",
[ZK,DS,DK,PO,RE],[("nonce sampling","NewZKEGKnow, NewZKEGRefresh in "+ZK),("share sampling","Gen in "+DS+", GenExpReveal in "+DK),("polynomial sampling","poly in "+PO)],(),["announcements and responses of proofs for known witnesses, reads from the randomness source"])
p("C09","Hashing to a scalar is deterministic, collision-free and uniform",
"The hash of a byte string to a scalar depends only on the bytes, is always in the range [0, group order), and is the same for every caller, in any order and concurrently. Distinct byte strings, even ones that differ in a single bit, in length only or by trailing zero bytes, get distinct scalars, and the scalars are spread evenly over the whole range. It is the HKDF-SHA256 derivation (48 bytes, salt ThresholdECDSA, info H2F 0 1) reduced modulo the order of the curve.",
["inputs","schedules"],"all byte strings and callers",
"No test calls the hash directly; proof tests only need prover and verifier to agree.",
[HA],[("HKDF expansion and reduction","HashToBigInt in "+HA)],[("Q","modulus of the reduction",HA)],["returned scalars"])
p("C10","All parties of a key generation agree on one correct public key",
"When distributed key generation succeeds at all parties, they all hold the same public key, which is the sum of all announced public shares, and each party's secret share matches its announced public share. A party that reveals a public share other than the one it committed to makes every party that received it fail. This holds for any number of parties, any message timing and any number of consecutive runs.",
["inputs","schedules","histories"],"all party counts, message timings, sequences of runs and single deviations from the committed share",
"The key-generation tests cannot be compiled here, and only check that no error is returned.",
[DK,DH,SY],[("commit then reveal","GenExpReveal in "+DK),("comparison with the commitment","NMCtmp.Verify in "+DK),("key assembly","NewDKey in "+DK)],(),["messages on the wire, DKey.PublicKey, CheckDH run on the generated keys"])
p("C11","Altered protocol messages are detected or harmless",
"If any single message of key generation, secret generation, resharing, exponentiation, revealing, multiplication or the Diffie-Hellman check is altered on its way (bits flipped, truncated, extended, replaced by another party's or an earlier message), then every honest party either reports an error or ends with a result that is still correct. No party ends with a result that contradicts the results of the parties that succeeded.",
["fault_sequences","inputs"],"all messages of all protocols and all single alterations of one",
"No test runs a protocol with a misbehaving party.",
[DK,DS,RE,DH,MU],[("round checks","check closures passed to Server.Round in "+RE+", "+DK+", "+DS),("commitment/decommitment","NMCtmp in "+DK),("proof verification","ZKEGKnow.Verify, ZKEGRefresh.Verify in "+ZK)],(),["messages before and after alteration, errors, outputs of every party"])
p("C12","All parties hold the same commitments, and they open to the real shares",
"After generating, resharing or multiplying distributed secrets, and after any linear combination, all parties hold the same vector of commitments, with one entry per party. The entry of a party is a commitment to exactly the share that party holds and later uses in revealing and exponentiation.",
["inputs","histories"],"all party counts, thresholds and sequences of operations",
"The tests that run these protocols cannot be compiled here, and never look at commitments or shares.",
[DS,RE,MU],[("publication of commitments","Gen in "+DS+", Mult in "+MU),("refreshed commitments to shares","ADSecret.Reshare in "+RE),("homomorphic update","Lin in "+DS)],[("ADSecret.egs","commitments of all parties to their shares",DS),("ADSecret.r","randomness of the own commitment",DS)],["commitments on the wire and held by each party, shares on the wire"])
p("C13","Resharing preserves the secret and yields a sharing of the chosen threshold",
"Resharing an additively shared secret with threshold t gives the parties shares such that any t of them determine, by interpolation, exactly the original secret, and fewer than t do not. This holds for every number of parties and every threshold from one up to it; a threshold of zero or above the number of parties is refused. The original secret remains usable, so that resharing it again, with any threshold, again preserves it.",
["inputs","histories"],"all party counts, thresholds, secrets and repetitions",
"The resharing tests cannot be compiled here; they use thresholds 1 and 2 only and check only that no error is returned.",
[RE,PO,DS],[("polynomial sharing","poly, polyEval in "+PO),("share combination","ADSecret.Reshare steps 2, 8, 9 in "+RE)],[("TDSecret","share of the threshold secret",DS)],["evaluations and commitments on the wire, revealed values, Exp results"])
p("C14","Any threshold-sized set of parties reveals and exponentiates correctly",
"With all parties alive, or with up to n-t parties having crashed or answering with garbage that cannot be decoded, revealing a threshold secret returns the shared secret modulo the group order and exponentiating it returns the public key of that secret, the same at all remaining parties. When fewer than t usable answers arrive, or the round cannot take place, an error is returned and never a value. The resulting key reports its label and threshold.",
["inputs","fault_sequences","configurations"],"all party counts, thresholds, sets of failing parties and kinds of failure",
"The exponentiation tests cannot be compiled here and only run with all parties alive, without looking at the result; revealing is only run as part of signing.",
[DS,PO,SY],[("tolerance of missing parties","TDSecret.Reveal, TDSecret.Exp in "+DS),("Lagrange interpolation","lagrangeCoef in "+PO),("failure report","RoundError.Missing in pkg/sync/error.go")],(),["returned values and errors, shares on the wire"])
p("C15","Private values never leave a party except to their designated recipient",
"No message of any protocol contains, in clear, a party's additive share of a secret, its commitment randomness, its polynomial coefficients or its secret key share; the evaluation of a party's sharing polynomial for another party is sent to that party only. The sharing polynomial has exactly the degree that the threshold requires, so the evaluations sent to fewer than t parties do not determine the secret. Only explicit revealing publishes shares, and only those of the revealed secret.",
["inputs","histories"],"all protocols, party counts, thresholds and runs",
"Tests do not observe the messages.",
[RE,DS,DK,MU,PO],[("point-to-point sending in resharing","ADSecret.Reshare step 8 in "+RE),("hiding commitments","Gen in "+DS),("exact degree","poly in "+PO)],(),["every payload on the wire, searched for known private values"])
p("C16","Linear combinations of shared secrets are exact",
"For all non-negative integers alpha and beta of any size and all threshold secrets a and b held by the same parties, the linear combination alpha*a + beta*b reveals, at every party, to exactly that combination of the secrets modulo the group order, and its exponentiation is the same combination of their public keys. It carries the given label, keeps working when combined again or reshared, and leaves a, b, alpha and beta unchanged. When thresholds differ, the larger one governs the result.",
["inputs","programs"],"all scalars, secrets, thresholds and nested combinations",
"Linear combinations are only run inside a signing test that cannot be compiled here and that ignores the value.",
[DS],[("local combination of shares and commitments","Lin in "+DS)],(),["values returned by Reveal and Exp at every party"])
p("C17","Multiplying shared secrets yields shares of exactly their product",
"For every number of parties and all shares, when the Paillier moduli are long enough for the product (at least 1024 bits), the outputs of the private multiplication sum modulo the group order to the product of the sums of the inputs. The distributed product of two secrets is again a distributed secret with the given label, which can be reshared, revealed, exponentiated and multiplied further, with the value of the product. The inputs are not changed.",
["inputs","histories"],"all party counts, share values including 0, 1 and order-1, and key pairs",
"The multiplication tests cannot be compiled here, are skipped by the project's CI, and never check the product.",
[MU],[("multiplicative-to-additive conversion","PrivMult in "+MU),("assembly of the product secret","Mult in "+MU)],(),["sums of returned shares, revealed products"])
p("C18","The distributed Diffie-Hellman check accepts exactly Diffie-Hellman triples",
"Run by honest parties whose secret shares sum to x, the check of (u, v) succeeds at every party if v = x*u, and fails at every party otherwise, for all points u and v including the neutral element and small deviations such as v plus the generator. It can be repeated on the same key any number of times, with any number of parties, and does not change the key. A party that opens values other than those it announced makes the check fail at every other party.",
["inputs","histories"],"all points, key shares, party counts and repetitions",
"The two CheckDH tests cannot be compiled here and use two parties and one triple each.",
[DH],[("randomised linear test","CheckDH steps 1-3 in "+DH)],(),["result at every party"])
p("C19","Malicious messages cannot crash or exhaust a participant",
"Whatever bytes another party sends, in any round of any protocol, during connection set-up or inside a round frame, a participant never panics, never loops forever on data that has arrived, and never allocates memory out of proportion to the bytes received. It reports an error for that operation and other parties' processes stay alive as well.",
["inputs","fault_sequences"],"all byte strings in place of any message, frame or handshake",
"Tests only run honest parties.",
[SY,RE,DK,DS,DH,MU,ZK,CU],[("length validation","receiveFromAll and Start in "+SY+", ADSecret.Reshare step 8 in "+RE+", NMCtmp.decode in "+DK)],(),["process exit, panics, allocation counters, returned errors"])
p("C20","A successful round delivers each party's data exactly once to its recipient",
"When a round succeeds at a party, its check function has been called exactly once for every other party and never for itself, one call at a time, with exactly the bytes that party addressed to it in that same round, whatever their size, whether broadcast or individual. No party completes a round before every party has started it, data of one round is never delivered in another, and neither the sender reusing its buffers nor later rounds change data already delivered. This holds for every network timing and fragmentation.",
["schedules","inputs","histories"],"all party counts, payloads, sequences of rounds, network delays and fragmentations",
"The two round tests cannot be compiled here; they run a single round of tiny broadcast payloads over an ideal network.",
[SY],[("round-numbered frames","server.sendToAll, server.receiveFromAll in "+SY),("ordering of checks","server.Round in "+SY)],[("server.roundID","number of the current round",SY)],["calls and returns of Round, check calls, bytes on the connections"])
p("C21","A round with failing parties reports exactly those parties and never succeeds",
"If in a round some parties have crashed, closed or broken their connection, or sent a frame that is truncated, too short, or carries another round or sender, or data the check rejects, Round returns an error at the parties affected whose list of missing parties is exactly the failing ones, and it still hands the other parties' data to the check. Rounds after a failure still deliver correctly among the remaining parties. A party that stays silent is reported as missing once the round duration is over.",
["fault_sequences","schedules"],"all sets of failing parties, failure points and failure kinds",
"Tests contain no failing party.",
[SY,"pkg/sync/error.go"],[("failure collection","server.receiveFromAll and server.Round in "+SY),("error value","RoundError in pkg/sync/error.go")],(),["errors returned by Round, Missing lists, check calls"])
p("C22","The protocol stack is free of data races",
"Running any number of parties in one process through connection set-up, rounds, key generation, secret generation, resharing, exponentiation, revealing, multiplication, presigning and signing, with and without failing parties, and through shutdown, involves no unsynchronised conflicting memory accesses.",
["schedules"],"all interleavings of the goroutines started by the stack, including error paths",
"The race job of the project's CI only runs honest sessions, and these packages do not compile here at all.",
[SY,DS,RE,TE],[("start-up wait group","server.Start/Round in "+SY),("per-party slots in result slices","server.sendToAll/receiveFromAll in "+SY),("channel collection","TDSecret.Exp in "+DS)],(),["race detector reports"])
p("C23","Each presignature is used for at most one signing attempt, in order",
"Every signing attempt, successful or not, consumes exactly the oldest unused presignature, and no later attempt ever uses it again. Signing without an unused presignature returns an error and sends nothing. A failed presigning adds nothing; every successful one adds exactly one presignature with the threshold asked for.",
["histories","fault_sequences"],"all interleavings of presigning and signing attempts, thresholds and failures",
"The signing tests cannot be compiled here and sign once per presignature.",
[TE],[("queue of presignatures","Protocol.Presign/Sign in "+TE)],[("Protocol.presig","unused presignatures, oldest first",TE)],["nonce shares on the wire of every attempt, errors"])
p("C24","All signers output the same signature, solving the signing equation",
"When signing succeeds, all parties output the same signature (r, s). Its r is the hash of the public nonce of the presignature used, and s satisfies s*tau = m*rho + r*eta modulo the group order for the presignature's secrets rho, eta, tau and the message m, for every message, number of parties and threshold; the caller's message is left unchanged. Commitments in presigning are made under the dedicated commitment key, not the signing key.",
["inputs","configurations"],"all messages, party counts, thresholds and presignatures",
"The signing tests cannot be compiled here and only check that no error is returned.",
[TE,DS],[("signing equation","Protocol.Sign in "+TE),("commitment key","Init in "+TE)],(),["signatures, shares and evaluations on the wire"])
p("C25","Signatures verify under standard ECDSA with the generated public key",
"Every signature output by the protocol for a message is a valid ECDSA signature of that message under the public key agreed on during initialisation.",
["inputs","configurations"],"all messages, party counts and thresholds",
"No test verifies a signature.",
[TE],[("presignature relations tau = k*rho, eta = x*rho","Protocol.Presign in "+TE),("signature assembly","Protocol.Sign in "+TE)],(),["signature verified with an independent ECDSA implementation"])
p("C26","Generated key files contain working, matching Paillier keys and addresses",
"For every committee size, the key generator writes one private-key file per party and one committee file such that each private-key file holds that party's index and a complete Paillier private key which decrypts everything encrypted with the public key listed for that party. Keys of different parties differ, and the listed addresses are the given ones, in order, or the default local ones.",
["inputs","configurations"],"all committee sizes and address lists",
"The key generator has no tests and does not compile here without its dependencies.",
[GK,CM],[("private-key encoding","encodePaillierPrivateKey in "+GK),("committee file","main in "+GK)],(),["files written by the real program, parsed independently"])
p("C27","The node program rejects malformed configuration without crashing",
"Given any malformed or truncated private-key file, committee file, process index or option, the node program ends with a message in its log instead of panicking, and never starts the protocol. Well-formed files are accepted.",
["inputs"],"all contents of the configuration files",
"The node program has no tests and does not compile here without its dependencies.",
[CM],[("file parsing","getMember, getCommittee, decodePaillierPrivateKey in "+CM)],(),["log and exit status of the real program"])
p("C28","A committee of node processes completes all requested signatures",
"Started with key files from the key generator and a common start time, a committee of node processes of any size and threshold completes the requested number of presignatures and signatures over TCP, every process logging each of them without errors, and ends by itself. If processes are killed while signing, the others still complete all signatures without errors when at least the threshold are left, and log an error for each signature when fewer are; if processes are killed while presigning, the others log an error and end with a failure status. Either way they end by themselves.",
["configurations","schedules","crash_points"],"committee sizes, thresholds, numbers of signatures, process start-up orders and killed processes",
"The programs have no tests; the shell script for local runs needs the network and missing modules.",
[CM,GK,SY,TE],[("program flow","main in "+CM)],(),["logs and exit status of the real processes"])
p("C29","Resharing catches every party that deviates from it",
"If a party taking part in resharing sends something that does not fit, every honest party reports an error and none obtains a threshold secret. That is so for: a proof of knowledge of a share or coefficient that does not hold, a constant coefficient that is not a rerandomisation of its share's commitment, values or proofs other than those announced before, a commitment to an evaluation (for any party) that is not that of its polynomial, an evaluation or randomness sent that differs from the commitment, or a final commitment to a share other than the one it got. It holds for any number of cooperating cheaters, any threshold, and within presigning, where nothing is kept to sign with. A party that follows the protocol is never refused, whatever its random choices.",
["inputs","faults","histories"],"all deviations of all sets of parties, committee sizes and thresholds",
"The tests run honest parties only (and cannot be compiled here).",
[RE,TE],[("checks of steps 1, 5, 7, 8, 10","ADSecret.Reshare in "+RE),("queue of presignatures","Protocol.Presign in "+TE)],(),["errors and results of the honest parties next to independent implementations that follow the protocol or deviate"])
p("C30","Parties connect despite failing attempts, start together, and stop cleanly",
"In whatever order and at whatever distance in time the parties start, and however often dialling, listening or exchanging identifications fails before it succeeds, every party ends up with exactly one usable connection to and one from every other party, each used for that party only, and the first round succeeds. No data of a round is sent before the common start time. A party that calls its first round after the start time gets an error and sends nothing. Stop closes every connection that the party ever had, also abandoned and refused ones, its peers then report exactly that party as missing, and no goroutine of the server remains.",
["schedules","fault_sequences","configurations"],"all orders and distances of starting, all sequences of failures during set-up, all points of stopping",
"The tests of the package cannot be compiled here, start all parties at once, and use connections that never fail.",
[SY],[("accepting and dialling until it succeeds","server.Start in "+SY),("waiting for the start time","server.Round in "+SY),("shutdown","server.Stop in "+SY)],[("inDataConn, outDataConn","connection from and to every party",SY)],["dial, listen, write, flush and close calls on the network, errors of the first rounds, goroutines left"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
