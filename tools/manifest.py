#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,subprocess
T="deterministic simulation with fault injection: seeded search over "
C={
"C01":("read schedules, short tapes and crash-resume, lockstep against a reference machine","Every explored sequence of tape reads delivers what the reference machine delivers and records it; trusts the reference machine and generated programs."),
"C02":("generated programs in lockstep with a reference RV32IM machine, re-run under other hash-map keys","Every explored program follows the reference machine step by step and gives the same record again; Poseidon2 permutation is a stand-in."),
"C03":("generated programs, every record row against the reference history, incl. records resumed from snapshots","Every row of every explored record agrees with the reference machine's history."),
"C04":("schedules of steps, forks, drops, crashes and resumes of several machine copies","After every scheduled action every copy and snapshot equals the uninterrupted reference run."),
"C05":("programs aimed at read-only memory and their own code","No explored write to read-only bytes goes on or becomes visible; executed instructions always those of the image."),
"C06":("ELF images under torn, truncated, lost, flipped and swapped writes, against an ELF32 oracle","Every explored image is loaded exactly as its bytes describe or refused with an error; header parsing crate is a stand-in; images over 256 KiB not loaded."),
"C07":("generated call graphs, events and inputs recorded natively, then replayed by every participant as a guest in the VM","Every explored honest record replays in every participant; guests run a scripted program compiled with the real SDK; call graphs in which no program is re-entered while it waits."),
"C08":("the same records with seeded tampering of calls, events, commitments and identities before a guest replays them, against an acceptance oracle","Every explored tampered record that the oracle calls different from the program's behaviour was refused; Poseidon2 permutation is a stand-in."),
"C09":("native runs of generated call graphs, events and input writes against an independent tracker","Every explored native run was recorded as the tracker says."),
"C10":("recorded transactions written to disk and read back through faulty readers, truncated at every byte","Every explored stored tape came back equal or was refused."),
"C11":("sequences of reads and seeks by a guest in the VM over short, empty and long tapes, against a file","Every explored sequence agreed with std::io::Cursor."),
"C12":("lists of events, participants and bytes through the native SDK, the guest in the VM and the proposer, with altered lists and claims","Every explored list has the same root everywhere and every altered one another; Poseidon2 permutation is a stand-in, proofs are ideal."),
"C13":("delays, losses, repeats and reorderings of program proofs of several transactions, and finalize at any moment, against a set-based model","Every explored history completed exactly the transactions whose proofs had all arrived, with the event root of the model; proofs are ideal (plonky2 stand-in)."),
"C14":("the same deliveries interleaved with altered, foreign and repeated ones of 16 kinds","Every explored bad delivery was refused and the honest ones went on as if it had not been; proofs are ideal (plonky2 stand-in)."),
"C15":("blocks of legal and illegal events on shared addresses, in several orders of arrival","Every explored block was accepted exactly when the rules allow it, in every order tried, with the object changes of the rules; proofs are ideal (plonky2 stand-in)."),
"C16":("histories of state operations over many blocks and tree depths, a second replica fed in other orders, lost and rebuilt","After every explored operation state, roots, summary and proofs equal those of a map with a textbook tree; proofs are ideal (plonky2 stand-in)."),
"C17":("whole chains of blocks with crashes, reordering and repeats, attacked with stale, mixed, altered and foreign proofs","Every explored honest block was accepted (but for the known finding) and every bad one refused with the chain unmoved; proofs are ideal (plonky2 stand-in)."),
"C18":("every recursion circuit fed with altered public values, swapped, foreign and forged child proofs, altered witnesses and whole trees of another circuit, against an independent statement of what each circuit must imply","Every explored altered instance was proved exactly when its public values follow from its children and witness (but for the known finding); constraints are evaluated in full by a stand-in for plonky2, proof composition is ideal."),
"C19":("generated programs, operands and short, empty and overlapping tape reads; the real generators' tables are checked row by row against every real constraint and lookup","Every explored halting run fills tables that satisfy every constraint and balance every lookup; polynomial commitments and FRI are left out, the Poseidon2 permutation has stand-in round constants."),
"C20":("forged execution records and altered cells and rows of the tables, each followed by seeded repair walks towards tables that every check accepts; what is accepted is replayed on a reference machine","Every explored set of tables that passes every real constraint and lookup told of an execution the reference machine makes (but for the known findings); polynomial commitments and FRI are left out, the Poseidon2 permutation has stand-in round constants; the search is incomplete: a hole that takes many coordinated changes can be missed."),
}
NA={}
import os
for i in ["C%02d"%k for k in range(1,21)]:
    if i not in C: NA[i]=NA.get(i,"no check built yet")
m={"version":1,"setup_cmd":"guest/build.sh && cd sim && cargo build --offline --locked --workspace",
 "hooks":{"guard":"cfg(mozak_sim)","enable":"rustflags --cfg mozak_sim in /verif/sim/.cargo/config.toml","source_commits":["9f282e0d1242d0b75f2891ce0a007e078da59b76", "f336b185d4bb473be105f73f7b7c23df7be15894", "f9aa702deed0ff50f6960616c52fa72eddc08df3"]},
 "checks":[{"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":T+t,"level":"exploration","level_note":n} for i,(t,n) in C.items()],
 "not_applicable":[{"property":i,"reason":r} for i,r in NA.items()]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
