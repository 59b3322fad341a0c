NA = {}
c("C01", "runtime monitor: random and edge-case programs over the group, checked against an independent model", "Every operand class the code distinguishes is hit in every run (edge scalars and points, all pairs of edge points, random programs with aliasing)."+TRUST)
c("C02", "runtime monitor: argument and result snapshots around every operation, plus the race detector on a shared-object workload", "Detects any mutation that shows on the sampled operands and any race the happens-before detector can see in the executed schedules."+TRUST)
c("C03", "runtime monitor: streams of encoded values read back through fragmenting, truncated and failing readers and writers", "Generated streams over edge and random values; every truncation point and every write-failure point of the sampled values."+TRUST)
c("C04", "runtime monitor: hostile decoding workload with panic, allocation and group-membership oracles", "A fixed corpus of length and coordinate attacks and seeded mutations; memory is measured around each call."+TRUST)
c("C05", "runtime monitor: commitment programs checked against a model of (value, randomness) pairs", "Edge-scalar pairs, special bases, random programs with aliasing receivers; exact neutrality and equality on confusable pairs."+TRUST)
c("C06", "runtime monitor: honest proofs over edge and random witnesses and scripted nonces, verified after fragmenting transport and by other parties", "A completeness failure on a thin set of witnesses is found only if the edge classes or the sampling hit it."+TRUST)
c("C07", "runtime monitor: battery of forgers, alterations and wrong witnesses against the real verifier", "Rejects every attack of the battery (challenge independence of any part, free responses, component-wise checks, statement and base confusion); it is not a proof of soundness. The unimplemented proof kinds are known findings."+TRUST, "fault_enumeration")
c("C09", "runtime monitor: differential against an independent HKDF, with collision, range and bit-spread monitors", "All lengths 0-300 and around block sizes, single-bit and length variants; exact value comparison for every string."+TRUST)
c("C20", "runtime monitor: offline checker over call/check/return histories of real round servers on a delaying, fragmenting, bounded network", "Exactly-once delivery, bytes, barrier and buffer isolation are decided for every party and round of the sampled sessions and schedules."+NET)
c("C21", "runtime monitor with fault injection: planned faults per link and round, exact comparison of errors, missing lists and check calls", "Faults are enumerated by kind and mixed at random in consecutive rounds. A silent peer hanging the round is a known finding."+NET, "fault_enumeration")
PROTO = NET + " Every honest party is the real code; the monitor reads the wire, the randomness drawn and the results."
c("C08", "runtime monitor with fault injection: the system randomness source replaced by a recording one that can fail; draws followed into proofs, shares and polynomials", "Freshness, range and independence are decided from every byte read during each operation and from what each byte influences; a failing source is enumerated draw by draw."+TRUST, "fault_enumeration")
c("C10", "runtime monitor with fault injection: key generation under delays, fragmentation and cheating parties, checked against announced shares and drawn randomness", "Sessions of 1 to 8 parties, several consecutive runs; every cheating party and alteration of the battery. Equivocation is a known finding."+PROTO, "fault_enumeration")
c("C11", "runtime monitor with fault injection: one message of one run altered, every operation, round, link class and kind of alteration; results of error-free parties compared with a model", "Alterations are enumerated by operation x round x kind; links and positions are sampled. The missing proofs of the code are known findings, with keys that cover only results following from the replaced value itself."+PROTO, "fault_enumeration")
c("C12", "runtime monitor: homomorphic comparison of commitments seen on the wire with shares later used, after random chains of operations", "Sampled chains of resharing, multiplication and linear combination; entries are compared through what the parties prove, accept and send later."+PROTO)
c("C13", "runtime monitor: differential of revealed and interpolated values against the dealt secret, every committee size up to 7 (9) with every threshold", "All (n, t) pairs up to the bound, random secrets, reshared repeatedly; every t-subset for small n."+PROTO)
c("C14", "runtime monitor with fault injection: every set of crashed or garbling parties for small committees", "Sets of failing parties are enumerated for n <= 5, sampled above; crash before, in and after the round."+PROTO, "fault_enumeration")
c("C15", "runtime monitor: wire search for everything a party drew or derived, degree check of transmitted evaluations", "Finds private values in clear (either byte order, hex, decimal) and missing masks or wrong degrees; it does not decide leaks through arithmetic combinations."+PROTO)
c("C16", "runtime monitor: linear combinations with edge and random coefficients compared with a model after reveal, exp and reshare", "All pairs of edge coefficients; chains of combinations; snapshots of operands and coefficients."+PROTO)
c("C17", "runtime monitor: private and distributed multiplication compared with products modulo the order", "Edge and random shares, 1 to 5 parties, moduli of 1024 bits and more."+PROTO)
c("C18", "runtime monitor: honest checks over true and nearly true triples", "Edge points, small deviations and random triples for 1 to 6 parties, repeated on the same key."+PROTO)
c("C23", "runtime monitor: online model of the presignature queue next to sessions of presigning, signing and failures", "Random histories with parties failing at chosen rounds; nonces on the wire identify the presignature used."+PROTO)
c("C24", "runtime monitor: signing equation evaluated on the presignature secrets read from wire and randomness", "Edge and random messages, 1 to 6 parties, every threshold."+PROTO)
c("C25", "runtime monitor: standard ECDSA verification of every signature", "The protocol at this commit computes something else: a known finding, identified by signatures that satisfy the protocol's own equation instead."+PROTO)
c("C19", "runtime monitor with fault injection: hostile frames, lengths, messages and connection set-ups against every protocol step, with panic, hang and allocation oracles", "The battery enumerates protocol steps x kinds of hostile content; allocation is bounded per object (heap profile) and in total. Resource exhaustion by many connections is not judged."+PROTO, "fault_enumeration")
c("C22", "race detector on sessions of the whole protocol stack over an in-memory network that adds no synchronisation of its own", "Finds races between accesses without a happens-before edge in the executed schedules; honest sessions, crashed parties, hostile frames, stop and failing start are all run."+NET)
c("C26", "runtime monitor: the real key generator's files parsed independently, every key pair used to decrypt", "Committees of 2 to 40 parties, with and without address lists, fresh and used directories; runs in scratch directories. Trusts the stand-in Paillier of stubs/tss-lib for encryption.")
c("C27", "runtime monitor with fault injection: the real node program started on malformed keys, committees, indices and options", "Every line of the files is altered in every way of the battery; a process that starts the protocol is recognised from its log and its listening.", "fault_enumeration")
c("C28", "runtime monitor: committees of real node processes over loopback TCP, judged by their logs and exit status", "Committees of 2 to 4 (quick) or 6 parties, all thresholds, several numbers of signatures; killed processes while signing.")
c("C29", "runtime monitor with fault injection: independent implementations of the resharing protocol, following it or deviating in enumerated ways with enumerated kinds of false proofs, next to real honest parties", "Deviations x forgeries are enumerated; committees, cheater sets, thresholds and places are sampled. Equivocation is outside the statement."+PROTO, "fault_enumeration")
c("C30", "runtime monitor with fault injection: servers started in random order over links whose set-up fails as planned; history of dial, listen, write, flush and close calls checked, goroutines counted at the end", "Failures are enumerated by kind (dial, listen, write, flush, half an identification) and mixed at random; strangers with impossible indices connect in between. A listener that fails for ever and peers that never connect are not judged."+NET, "fault_enumeration")
