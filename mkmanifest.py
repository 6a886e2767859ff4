#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json
T = {
"C01": "exhaustive enumeration of message lengths/contents and hash histories on the real code, compared with a reference model",
"C02": "exhaustive enumeration of all chunkings and of all operation histories of two contexts on the real code, compared with a reference model",
"C03": "exhaustive enumeration of operation histories, key/message/tag lengths on the real code, compared with a reference model",
"C04": "exhaustive enumeration of presented tags, corruptions and verdict histories on the real code (explicit-state)",
"C05": "exhaustive enumeration of byte pairs/triples, positions, lengths and call histories on the real code",
"C06": "explicit-state exploration of operation sequences on every build of the real code in lockstep with a reference model",
"C07": "explicit-state exploration of operation sequences on every build of the real code in lockstep with a reference model",
"C08": "exhaustive fault enumeration (drops, corruptions, duplicates, wrong IV) over packet sequences on the real code",
"C09": "exhaustive enumeration of operation sequences replayed on every build, transcripts compared",
"C10": "exhaustive enumeration of length pairs and packet sequences on every build in lockstep with a reference model",
"C11": "exhaustive enumeration of forgeries and of genuine/forged packet histories on every build",
"C12": "explicit-state exploration of operation sequences on the real code in lockstep with a reference model",
"C13": "explicit-state exploration of packet divisions and operation sequences in lockstep with a reference model",
"C14": "explicit-state exploration of operation sequences, incl. solved-for counter overflow boundaries, in lockstep with a reference model",
"C15": "explicit-state exploration of operation sequences in lockstep with a reference model",
"C16": "exhaustive enumeration of key lengths, S-box inputs per round and operation sequences in lockstep with a reference model",
"C17": "exhaustive enumeration of S-box inputs, single-bit keys/blocks and operation sequences in lockstep with a reference model",
"C18": "exhaustive enumeration of lengths, counter boundaries and operation sequences in lockstep with a reference model",
"C19": "exhaustive enumeration of all messages, randomisers and ciphertexts of all small keys with controlled random draws",
"C20": "exhaustive enumeration of expression trees over ciphertexts of small keys with controlled random draws",
"C21": "exhaustive enumeration of the outcomes of the random generator's draws in key generation",
"C22": "exhaustive enumeration of well-typed programs and of encryption/decryption histories in lockstep with an integer model",
"C23": "exhaustive enumeration of programs and of user assignments in lockstep with an integer model",
"C24": "explicit-state exploration of channel adversary action sequences against the composed protocol running on the real code",
"C25": "exhaustive exploration of call interleavings and of thread schedules (controlled scheduler, bounded preemptions) on the real code",
"C26": "exhaustive enumeration of lengths, alignments and aliasing with guarded, patterned and instrumented buffers on the real code",
"C27": "exhaustive enumeration of memory fill patterns x operation histories on the real code, results compared",
"C28": "enumeration of all sizes around powers of two up to the bound under small stacks on the real code, compared with a reference model",
}
N = "Holds for every execution enumerated; bounds per scenario are in DESIGN.md. The reference models (mc/ref, checked by setup against published vectors) and, beyond the enumerated contents, the representativeness of generated byte strings are trusted."
M = dict(version=1, setup_cmd="python3 vt.py setup", checks=[
    dict(property=p, quick_cmd="python3 vt.py check " + p, thorough_cmd="python3 vt.py check %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
         technique="model checking: " + t, level="model_checking", level_note=N) for p, t in sorted(T.items())], not_applicable=[],
    notes="No hooks in /repo: the harnesses compile /repo's unmodified sources. 20 fix: commits in /repo and two recorded findings are listed in known-findings.txt.")
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
