#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
COMMON = (" Exhaustive within the bounds listed per family in the evidence file and in DESIGN.md; nothing is claimed outside them. "
  "Trusted: the reference model mc/src/model.rs (an independent transcription of the NetCDF-3 specification and of the documented contract), the Rust standard library, the operating system.")
T = {
 'C01': ('explicit enumeration of definitions and edit histories, written and read back by the real library, against a reference model', 'Bounded: all definitions of ~20 finite spaces (lists, attribute types and lengths, kinds of variables, header lengths) x versions x header sizes.'),
 'C02': ('explicit-state exploration of all write histories up to a depth on the real writer, against a reference model', 'Bounded: all sequences of whole-variable and record writes up to a depth over several schemas, plus all orders of complete sets of writes.'),
 'C03': ('explicit-state exploration of all write histories (all subsets written) on the real writer, against a reference model', 'Bounded: all subsets and sequences of writes up to a depth; every unwritten element compared with the fill value.'),
 'C04': ('exhaustive enumeration of definitions and write histories; bytes compared with an independent encoder model', 'Bounded: the same spaces as C01 and C02; whole files compared byte for byte with the specification encoder.'),
 'C05': ('exhaustive enumeration of legal file layouts encoded by the model, read by the real library', 'Bounded: all definitions of the spaces and all layouts (orders, gaps, indeterminate fields, list encodings) of the families.'),
 'C06': ('exhaustive enumeration of malformed byte strings (grammar-guided and byte-level) run through the real reader with an allocation monitor', 'Bounded: all single (and some double) byte/word mutations, truncations, insertions of the base files, all field substitutions of a header grammar; panic, abort, hang and memory monitored.'),
 'C07': ('exhaustive enumeration of truncation points on the real reader', 'Bounded: every prefix of every base file, header lengths swept across the read blocks.'),
 'C08': ('explicit-state exploration of all edit sequences up to a depth (and closure of the reachable states) on the real DataSet, against a reference model', 'Bounded: all sequences of edits over small alphabets up to a depth; breadth-first closure of the model states, each transition replayed on the library.'),
 'C09': ('exhaustive enumeration of names over the whole Unicode range and over character classes', 'Every Unicode scalar value at every position class, all strings up to a length over the class representatives, all byte lengths around the limit, through every entry point.'),
 'C10': ('explicit-state exploration of all sequences of correct and incorrect calls up to a depth on the real writer and reader', 'Bounded: all call sequences up to a depth over alphabets which contain every misuse.'),
 'C11': ('exhaustive fault injection at every system call (single faults, pairs, persistent) on the real library, for all histories up to a depth', 'Bounded: every read/write/seek of each history x 6 faults x 4 reactions of the caller; pairs of faults on some histories.'),
 'C12': ('exhaustive enumeration of crash points (every byte of the recorded write sequence) on the real library', 'Bounded: every byte-level prefix of the writes of all histories up to a depth; writes are not reordered.'),
 'C13': ('explicit-state exploration of all access sequences up to a depth on the real reader', 'Bounded: all sequences of accesses up to a depth over an alphabet with every access of every variable.'),
 'C14': ('exhaustive enumeration of size grids; arithmetic and locations compared with exact arithmetic; real accesses beyond 2 and 4 GiB on virtual and sparse files', 'Bounded: all combinations of the size grids around the powers of two and the format limits.'),
 'C15': ('exhaustive enumeration of file-system situations x modes x operations on the real library', 'Bounded: all situations of the families (absent, file, empty, directory, links, permissions, other user).'),
 'C16': ('exhaustive enumeration of definitions and layouts, copied twice through the real library', 'Bounded: the spaces of C01 and the layouts of C05, both versions.'),
 'C17': ('exhaustive exploration of interleavings: all orders of the calls of several actors, and all thread schedules up to a preemption bound under a controlled scheduler, on the real library', 'Bounded: 2 to 4 programs of 3 to 6 calls; two or three threads with up to 2 or 3 preemptions at system-call granularity.'),
 'C18': ('exhaustive exploration of the interleavings of an environment (another process acting on the path or file) with the system calls of the real library', 'Bounded: one action (or two) of ten before every system call, for all short sequences of reads and writes over the schemas and ways of naming the file.'),
 'C19': ('exhaustive enumeration of pairs of definitions and of the histories leading to them; the verdict of the real comparison against equality in the reference model', 'Bounded: definitions with all their single and double changes obtained in six ways, all reachable data sets of an edit graph pairwise, all positions of a difference up to a length, all do/undo sequences up to a depth.'),
 'C20': ('exhaustive exploration of call sequences, fault points and malformed inputs on the real library under a monitor of descriptors and memory', 'Bounded: all sequences of calls up to a depth, all single faults, all truncations and byte corruptions of the base files; every scenario is run three times and must balance.'),
 'C21': ('exhaustive exploration of access sequences on the real library under a monitor of transfers and memory', 'Bounded: all sequences of accesses up to a depth over schemas whose parts are small against the whole; 64 KiB of slack per call.'),
 'C22': ('exhaustive enumeration of malformed headers (corruptions, cuts, pairs of defects) and of operating-system errors at every system call of the real library; the error against a reference diagnosis', 'Bounded: all byte and word substitutions, edits and cuts of the base files, all pairs of 30 defects over the header lengths around the read blocks, 16 errors at every system call of the scenarios.'),
}
m = dict(version=1, setup_cmd='bash /verif/check.sh --build',
  checks=[dict(property=k, quick_cmd=f'bash check.sh {k} --tier quick', thorough_cmd=f'bash check.sh {k} --tier thorough',
     evidence_file=f'evidence/{k}.json', technique=t, level='model_checking', level_note=n + COMMON) for k, (t, n) in T.items()],
  not_applicable=[],
  notes='No hooks: everything is observed through the public API of the library and through the interposed system calls of the harness process. known_findings.txt lists the genuine defects (repaired or not).')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
