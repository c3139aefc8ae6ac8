#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, EX = "model_checking", "exploration"
TLA = "TLA+ specification checked with TLC; every transition replayed into the real code"
N = {
 "C01": (MC, TLA + " (Handshake.tla)", "All record sequences of the model up to the configured coalescing/splitting, each with several concrete renderings; assumes the scripted server's own crypto (checked against the Quint specifications)."),
 "C02": (MC, TLA + " (Handshake.tla, Params.tla)", "Every value of the version, cipher suite, compression, session id length, curve, curve type, point format and point length fields, and every class of bad point, points of sibling curves near ours included."),
 "C03": (MC, TLA + " (Handshake.tla)", "Every message changed in transit in both directions (soft, key-changing, arbitrary), every byte position of each message, every bit of Finished, and records injected between the messages."),
 "C04": (MC, TLA + " (Handshake.tla)", "Every conforming variant combination and record layout of the model completes, Finished and application data checked with independent crypto; shaped server values, long flights, and loopback TCP through from_tcp (Tcp.tla)."),
 "C05": (MC, TLA + " (Handshake.tla)", "Every message, record and protection variant in every phase; exact alert sequence and error class."),
 "C06": (MC, TLA + " (Writer.tla, Session.tla)", "All write sequences with transport faults up to the depth, record numbers around 2^8, 2^16, 2^32, 2^40 and 2^63, and one run of 66,000 records (200,000 in thorough)."),
 "C07": (MC, TLA + " (Writer.tla, Session.tla)", "All sequences of writes of any type with sizes around the record limit; single writes of every length in a list around multiples of 2^14."),
 "C08": (MC, TLA + " (Session.tla)", "Every single adversarial transformation among up to three records (two with replay, swap, drop, reflection, 14 kinds of forgery); every bit of a record flipped; record numbers across byte carries."),
 "C09": (MC, "TLA+ specification (Reader.tla): TLC judges tables observed from the real code", "All 256 types, all alert level and description bytes, all ChangeCipherSpec bytes, lengths around every limit, plain and protected, with and without a handshake message pending."),
 "C10": (MC, TLA + " (Session.tla)", "All sequences of record sizes {0,1,2,5,16383,16384} and read sizes up to the depth, through random transport chunking; tens of thousands of empty records; loopback TCP; random long programs validated against the specification (SessionTrace.tla)."),
 "C11": (MC, TLA + " (Session.tla)", "Every kind of authentic record on an established connection in every position among data, reads, writes and closes up to the depth; loopback TCP; random long programs (SessionTrace.tla)."),
 "C12": (MC, TLA + " (Robust.tla, Handshake.tla, Session.tla)", "Junk of 12 kinds and mutated messages at every position of the flight and after it; contents of junk are sampled at random; runs of 60,000 records on a 2 MiB stack; storms of interruptions."),
 "C13": (MC, TLA + " (Transport.tla, Handshake.tla, Session.tla)", "Every cut, interruption and end of small record streams in both directions; every byte of a handshake in both directions as end, failure or interruption; a TCP peer that ends, resets or pauses at every stage."),
 "C14": (MC, TLA + " (Reassembly.tla)", "All fragmentations of short message streams at the explored sizes; long messages around 2^8 and 2^16 bytes; messages dripped in single octets."),
 "C15": (MC, "TLA+ grammar (Codec.tla): well-formed messages generated by TLC, decodings judged by TLC", "Messages of every shape of the grammar, truncated, extended, with every byte changed, lengths and contents changed together; byte strings up to 300 bytes."),
 "C16": (MC, "TLA+ grammar (CodecGen.tla): every value shape enumerated by TLC and built in the real code", "Values with element counts around every bound, up to two (three in thorough) parts varied at a time; integers of 1, 2, 4 and 8 bytes."),
 "C17": (MC, "TLA+ specification (Sha256.tla, Streams.tla): TLC enumerates call histories and computes the streams", "All sequences of request sizes around the block up to the depth; other keys, seeds and sizes are compared with a reference that agrees with the specification on thousands of inputs."),
 "C18": (EX, "TLA+ specification (Sha256.tla) evaluated by TLC as the oracle", "Every message length up to 330 (1,100) bytes by the specification; longer messages, up to 2^29 (2^31) bytes, against a reference that agrees with it."),
 "C19": (MC, "TLA+ specification (ChaCha20.tla, Streams.tla): TLC enumerates call histories and computes the keystreams", "All sequences of block and encryption calls with sizes around the block up to the depth; other inputs against a reference that agrees with the specification."),
 "C20": (EX, "TLA+ specification (Aead.tla) evaluated by TLC as the oracle", "Lengths 0 to 66 and more, messages solved for the edges of the field, every bit of sealed data changed; other inputs against a reference that agrees with the specification."),
 "C21": (EX, "Quint specification (P256.qnt, Ecdh.qnt) on unbounded integers as the oracle", "Thousands of operands solved for the edges, scalars around the order, points on and off the curve; millions more against a reference that agrees with the specification."),
 "C22": (EX, "Quint specification (P256.qnt) as the oracle; recorded exchanges judged by TLC (FreshJudge.tla)", "Thousands of exchanges with fresh keys and with chosen system randomness; each bit of the randomness changed."),
 "C23": (EX, "TLA+ specification (Freshness.tla): TLC enumerates histories of attempts and judges what was sent", "Every history of three (four) attempts of nine kinds; all values of all histories judged together; each bit of chosen system randomness changed."),
 "C24": (EX, "TLA+ specification (Leak.tla): non-interference by self-composition; basic-block and address traces of the real code judged by TLC (LeakJudge.tla)", "The optimized build on x86-64, every basic block, load, store, copy and C library comparison recorded: thousands of scalars on several points, every differing bit and pair of octets of a tag and of the verify data, the handshake from the server's first message on with other keys. Variable-latency instructions and other compilers are outside."),
 "C25": (MC, "TLA+ model (Upkeep.tla): every program of puts, reads and writes that closes a cycle, checked with TLC; each run for ever (thousands of times) on the real client with its memory and work counted, judged by TLC (UpkeepJudge.tla)", "Programs up to 5 (thorough 6) steps, some thousand repetitions each; families of messages, records, reads and writes in doubling sizes; lying lengths at every place of sample messages. Work is basic blocks and copied octets of the optimized build, memory what the allocator was asked for."),
 "C26": (MC, "TLA+ model (Isolation.tla): schedules of several connections, every kind of sharing told apart by TLC; the schedules drive real connections, each compared with its own behaviour of Handshake.tla or Session.tla", "Two to four connections, up to 7 blocks of steps; switches inside of transport calls (on one stack, and between threads one at a time) and between calls of the application; connections that go from thread to thread; good, failing and attacked connections. Steps of threads that run at the very same time are not controlled (all harness programs run eight connections at a time, though)."),
 "C27": (MC, "TLA+ model of a blocking transport (Waiting.tla, invariant and liveness checked with TLC, faulty clients told apart); its behaviours drive the real client, whose recorded waits are validated as traces (WaitingTrace.tla)", "Handshakes in five layouts with every cut of Cuts, good and refused at each record; up to three records and three calls afterwards; writers that buffer and that do not. The peer sends its Finished only after it has seen the client's."),
 "C28": (MC, "TLA+ model (Offer.tla): TLC parses and judges the ClientHello messages the real client sends and enumerates every choice a conforming server can make from them; each is played to the real client", "All offered suites, compression methods, curves, point forms, signature algorithms and extension answers, one answer at a time and all at once. Choices beyond the peer's own cryptography (other suites, curves, compression) are followed up to the client's key exchange message. Extensions the specification does not know are taken to be ignored by the server."),
 "C29": (MC, "TLA+ specification (Effects.tla) of the lives of a connection and what each step may use, checked with TLC (a client that uses anything else in any situation is told apart); recordings of the real client along behaviours of Handshake.tla, Session.tla and Robust.tla, with the C library's functions watched, are validated by TLC (EffectsJudge.tla)", "Every message, record and protection variant in every state, failing transports, every kind of handshake message and alert, reads, writes and closes with each outcome; development and released build. What goes around the C library (system calls made directly) is not seen; reading the clock is left out."),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in N:
            lv, tech, note = N[i]
            checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                           "technique": tech, "level": lv, "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "The check is not built yet.")})
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "hooks": {"guard": "husk_verif", "enable": "RUSTFLAGS=\"--cfg husk_verif\" (set by lib/core.py when it builds the harness)",
                   "source_commits": ["68b19e4"]},
         "checks": checks, "not_applicable": na,
         "notes": "TLA+/TLC for the protocol state machines, the grammar and the symmetric primitives, Quint for the curve. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
