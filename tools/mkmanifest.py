#!/usr/bin/env python3
"""writes MANIFEST.json: one check per property claimed below, everything else not applicable with its reason"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the MIR'
BASE = 'Trusts rustc nightly\'s front end and MIR, the library models in absint/models.py and the interpreter itself. '
U = 'An obligation the analysis cannot settle is counted as undecided in the evidence and raises no alarm; on the pinned tree there is none.'
C = {}


def claim(pid, tech, level, note):
    C[pid] = (tech, level, note)


claim('C03', AI + ': type invariant by induction over all construction and mutation sites', 'proof',
      BASE + 'Every struct expression of Label and every mutable access to its bytes is found in the type-checked program and shown to keep 1 to 63 bytes from every function outside the module that reaches it; constructor outcomes are decided for every length. ' + U)
claim('C04', 'compile-fail witnesses with compiling twins, and enumeration of the public signatures of encoder and decoder', 'other',
      'Each witness program is type-checked by rustc against the current crate: a misuse must be rejected and its twin, differing only in the offending call, accepted. Which receivers and which result types every public method has is enumerated from the type-checked crate. Decides section order for the public API; assumes the crate has no unsafe code (C30).')
claim('C08', AI + ': exhaustive evaluation of the constants and conversion functions against the IANA tables', 'proof', BASE + 'Constants and conversions are compared with the registry tables; dispatch by record type is decided from the match in the analysed function. ' + U)
claim('C09', AI + ': bit-precise symbolic transfer functions of the header accessors', 'proof', BASE + 'Each setter is shown for a header of twelve arbitrary bytes and an arbitrary value to change exactly its bits. ' + U)
claim('C01', AI + ': feasibility of every panic (explicit panics, unwrap/expect, indexing, slicing, checked arithmetic) in every function that is handed received bytes or values decoded from them', 'proof', BASE + 'Inductive type invariants (a reader\'s position lies in its buffer, kept by every function; labels C03; service names C23). A panic that depends on values carried round loops is only reported if going round often enough provably reaches it. TXT strings of more than 255 bytes are registered locally and not counted. ' + U)
claim('C02', AI + ': lexicographic ranking of the name reader\'s loop, read off the loop summary', 'proof', BASE + 'Every iteration is shown to lower (bound on allowed pointer targets, bytes left); stack depth is bounded by the absence of recursion. ' + U)
claim('C05', AI + ': the encoder\'s state representation learned from finish(), each operation run on an arbitrary encoder state', 'proof', BASE + 'Buffer discipline, truncation flag and section counts, per operation and per record type. ' + U)
claim('C06', AI + ': symbolic extents of the bytes an operation writes and of the positions a decoder keeps', 'proof', BASE + U)
claim('C07', AI + ': span provenance of every byte the record and question writers store, and of every field their readers return', 'proof', BASE + 'One clause per record type, for every value of its fields. ' + U)
claim('C10', AI + ': provenance of every accessor\'s result as spans of the message, per record section', 'proof', BASE + 'The entry lies where its encoding lies; reads of record data stay within the declared length. ' + U)
claim('C11', AI + ': bit-precise relation of decoded entry fields to message bytes and of encoded entries to their arguments', 'proof', BASE + U)
claim('C12', AI + ': outcome analysis of the section iterators and transitions', 'proof', BASE + 'Every error outcome needs a reason in the message, every lost entry is reported. ' + U)
claim('C33', AI + ': induction over the entries of a message, composed of the layout relations of writer and reader', 'proof', BASE + 'The induction is by hand (in the check\'s documentation); every step is a rule decided on the current source: what is appended, what is read from where, that a complete entry is accepted, and where the next one starts. ' + U)
claim('C27', AI + ': one-iteration transfer function of the name reader\'s loop against RFC 1035 4.1.4', 'proof', BASE + U)
claim('C32', AI + ': effect analysis of the accessors and of repeated iteration past the end', 'proof', BASE + U)
claim('C29', AI + ': loop summaries over the parts of the text', 'proof', BASE + 'str::split family modelled by its documented contract. ' + U)
claim('C30', 'lint over the HIR (unsafe blocks, functions, impls, attributes, exported symbols) and over the source tokens', 'other', 'Every module of both crates is covered, including the ones derive macros expand to; derives of zerocopy\'s/bytemuck\'s traits on plain integer wrappers are the only allowed unsafe impls. Safety of the dependencies is not examined.')
claim('C31', AI + ': exhaustive comparison of the matching predicates with the specification over 16-bit types', 'proof', BASE + U)
SV = 'The sockets, the encoder and the decoder are summarised by events; their own behaviour is decided by C02 to C12. '
claim('C13', AI + ': which outcomes of the packet handler reply, for an arbitrary header', 'proof', BASE + SV + U)
claim('C35', AI + ': event histories of every outcome of the socket constructors, constant evaluation of the addresses they use', 'proof', BASE + 'What the operating system does with a correctly configured socket is not examined. ' + U)
claim('C36', 'type analysis of every formatted value; ' + AI + ' of the printing functions that write text, with provenance of the text', 'proof', BASE + 'Text that was examined before it is printed counts as undecided unless the examination is by ranges of one byte. Text that the caller of a public function passes is not from the network. ' + U)
claim('C37', AI + ' of the printing functions: the sequence of pieces each one writes, loop summaries over labels and entries', 'proof', BASE + 'The standard library\'s printing of integers and addresses is trusted; how a single label or an opcode is spelled is C36 and C23. ' + U)
claim('C38', AI + ': every error outcome of the readers against what is wrong at the cursor; evaluation of the conversion for every kind', 'proof', BASE + 'Kinds of errors for text that is parsed are C03 and C29, for a full buffer C05. ' + U)
claim('C39', AI + ' of every implementation of PartialEq, Ord, PartialOrd and Clone on arbitrary values, part by part; evaluation on pairs of short values where it loops', 'proof', BASE + 'Hashing is not examined: equal values have the same bytes. ' + U)
claim('C14', AI + ': which registered records reach the response, from summaries of the scanning loops', 'proof', BASE + SV + 'Decided for an arbitrary set of records and an arbitrary query. ' + U)
claim('C15', AI + ': event histories of the query handler and of the send sites', 'proof', BASE + SV + U)
claim('C16', AI + ': event histories of the receive loops', 'proof', BASE + SV + 'Every loop runs from an arbitrary state of its own loop head. ' + U)
claim('C26', AI + ': event histories of the receive loops, buffer lengths and received spans', 'proof', BASE + SV + U)
CL = 'Every client function is run from its entry on arbitrary packets, each receiving loop from an arbitrary state of its loop head; sockets, timers, the decoder and the encoder are summarised by events. '
K = 'Known findings are listed in known-findings.txt and reported on every run. '
claim('C18', AI + ': provenance of every returned address through the receive and record loops', 'proof', BASE + CL + K + U)
claim('C19', AI + ': every wait is dominated by a time-limit setting or raced with a timer; outcome analysis of the waits', 'proof', BASE + CL + U)
claim('C20', AI + ': deadline and retransmission typestate along every path between two waits', 'proof', BASE + CL + U)
claim('C21', AI + ': event histories of the reporting loops against a set model of the names reported', 'proof', BASE + CL + U)
claim('C22', AI + ' of the constructors and add_server, and loop summary of the sending loop', 'proof', BASE + CL + U)
claim('C25', AI + ': the encoder calls of every query function, as sequences of abstract values', 'proof', BASE + CL + U)
claim('C28', AI + ': provenance of the instance details and of the TXT contents through the record loop', 'proof', BASE + CL + K + U)
claim('C23', AI + ' of the parsers on an arbitrary target, exact paths; type invariant over all construction and mutation sites', 'proof', BASE + U)
claim('C24', AI + ' of the TXT parser, per iteration with an arbitrary map of attributes, of lookups and insertions on an arbitrary map, and of the first items of a listing', 'proof', BASE + U)
claim('C17', AI + ' of every registering function on an arbitrary advertiser; the TXT strings per iteration over arbitrary attributes', 'proof', BASE + CL + U)

NA = {
 'C34': 'A bound on elapsed wall-clock time depends on the operating system\'s timers and scheduler, which the source does not determine. The structural part (deadline tested before each wait, every wait bounded) is decided as C19 and C20.',
}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = [{'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
               'technique': C[p][0], 'level': C[p][1], 'level_note': C[p][2]} for p in props if p in C]
    na = [{'property': p, 'reason': NA.get(p, 'No check yet: the static analysis that decides it is not built.')} for p in props if p not in C]
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: nothing in /repo is guarded, the analyser reads the crates as they are built.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
