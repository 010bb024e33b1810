#!/usr/bin/env python3
"""Writes MANIFEST.json and the explanations of checks.json: what each property's contracts state, and what is assumed."""
import json
T = 'contract-based deductive verification of the real code (go/ssa of /repo on every run, obligations discharged by z3/cvc5); a bounded harness on the same code labelled as such'
COMMON = ('Discharged for all inputs and iterations under the assumptions of the evidence (libraries by contract, integers mathematical, arrays not aliased across types). '
          'How the contracts of the functions compose to the property is argued in DESIGN.md, not by the solver. ')
X = {
 'C01': ('every record a write call appends is indexed by the very function a rebuild uses (Index, indexHeader) with the header that was written and at its position; indexHeader and the persister change the rows as a function of (index, record) only; Index visits every member once, in order; names lose exactly the suffix they got; the fields of a row are the ones of the record',
         'That SQLite does what the statements say is decided on their text (sql.py); that a reopened database shows the same rows is assumed.'),
 'C02': ('each call of STFS succeeds or fails as its specification over the index says (existence, kind, parents, emptiness, O_EXCL, O_TRUNC, rename targets), asks for exactly one change of the named entry with the requested attributes, and the change is what the operations and the persister do to the rows; a refused call asks for nothing',
         'Symbolic links and several open handles of one file are outside (known findings).'),
 'C03': ('the pipeline is composed in the same order and with the same keys and formats on writing and reading (archive/Update against Fetch), the size in the header is what was measured by an identical dry run, a decompressor reads the format its compressor writes, suffixes are inverse, copyContent writes everything in order in writes independent of the source, Encrypt/Decrypt and Sign/Verify are inverse on terms',
         'The codecs and the cryptography themselves are assumed to round-trip; the harness exercises them on boundary sizes (bounded).'),
 'C04': ('a member is indexed at the position where nextHeader found it (position arithmetic: block smaller than record size, record*rs+block = blocks before it), content positions move only with new content, last-known positions only forward, Fetch reads the member at the given position, members are counted from where the tape is, writers align to blocks and whole records',
         'archive/tar reading and writing whole 512-byte blocks is assumed.'),
 'C05': ('the drive is opened for appending and cleared only on the first open of an explicit overwrite; what is written is block aligned, headers then exactly the announced content, then one trailer exactly if something was written, also on every failure path (abort); an interrupted member is completed first; nothing is written by a refused call',
         'The bytes archive/tar writes are assumed to be well-formed; the harness reads them back with an independent reader (bounded).'),
 'C06': ('reading goes strictly ahead and ends only where nothing can be read (nextHeader), a torn record or torn content is no failure and costs no other record (Index), deletions and updates of what has been lost are no failure (indexHeader), restoring a torn entry reports the failure (Fetch), what an interrupted write left is completed before appending',
         'Which prefix archive/tar reports for which cut is assumed; the harness cuts tapes at every interesting byte (bounded).'),
 'C07': ('indexHeader is specified as a function of record and row which is the identity on rows that already reflect the record, upserts by name including deleted rows, and reports no failure for rows that are ahead; Index passes every member to it from where it is told to start; the last indexed position counts every row',
         'Idempotence over whole histories follows per record from these contracts; the composition is argued in DESIGN.md and exercised by the harness (bounded).'),
 'C08': ('with a signature format every header Index accepts and every content Fetch hands out went through VerifyHeader/Verify with the configured key before it is used, an unknown format or a missing signature is refused, Verify* succeed exactly if the primary key verified exactly this text or content, the signed text is the whole embedded header',
         'Unforgeability of minisign/OpenPGP is assumed (terms); the harness forges and flips (bounded).'),
 'C09': ('with an encryption format every header that reaches the tape writer is one EncryptHeader returned (only length and wrapper remain), the encrypted text is the whole header with the STFS records, content is encrypted before it is written and with the configured recipient, and nothing is indexed or restored that has not been decrypted with the configured identity',
         'Secrecy of age/OpenPGP is assumed (terms); the harness searches tapes for what went in (bounded).'),
 'C10': ('for every function and every path, including the failure of any call at any point: what was opened is closed, locks are free at return, the drive is free at return, failures are reported, and no nil dereference, index out of range, failed type assertion or division by zero occurs',
         'Termination is proved for loops whose contract names a progress measure (nextHeader, writers, tail completion); elsewhere loops end when their source ends, which is assumed of the source. The harness injects every single failure (bounded).'),
 'C11': ('every method of STFS and of open files touches shared state only while holding ioLock, in one critical section that contains the whole effect, every other lock is taken inside it and released before it, lock order is acyclic, locks are free at return; so outcomes are those of the order in which ioLock was taken',
         'That code outside ioLock touches only immutable or own state is checked per method; data races inside libraries are assumed absent. The harness runs concurrent programs under the race detector and searches a sequential order (bounded).'),
 'C12': ('the rows a recursive call selects are exactly the named one and those whose name begins with it and a slash (statement text and row predicate as string terms, so every character is covered), Delete and Move write one record for each of them and for nothing else, indexing a record changes only its row, a rename replaces only what is in the way and is refused into itself',
         'Two findings with symbolic links are listed in known_findings.json.'),
 'C13': ('GetHeaderDirectChildren returns exactly the live rows one level below the name, each once, never the name itself, at most the limit; creating calls require a parent that is a directory; removing requires emptiness; renaming requires a parent of the target and keeps parents; Stat finds exactly live rows',
         'Hand-made index databases are out of scope.'),
 'C14': ('every method of an open file is the operation of a byte array with a cursor: flags decide what may be read or written, offsets and counts are the ones of the buffer, loading reads all of the entry before the first use, a write marks the file as to be synced, syncing archives exactly the buffer, closing a changed file syncs',
         'The buffers themselves (memory, temporary files) are assumed to be byte arrays and are compared with one by the harness (bounded).'),
 'C15': ('in every function of a read-only filesystem no path reaches a mutating operation of the tape or of the index, every mutating call returns the permission error, files opened through it are not writable, opening a drive for reading creates and changes nothing',
         'Building a missing index is allowed as the property says.'),
 'C16': ('initialising asks the tape and the index and appends a root only if there is none, a stale index is caught up from where it ends, opening for writing appends only (alignment and completion write behind what there is), what an interrupted write left is completed with exactly the missing zeros, headers are found behind odd padding',
         'Catching up is exercised, and its composition decided, by the harness (bounded).'),
 'C17': ('the root is the live row with the fewest slashes, getSanitizedPath maps every spelling of a path below any form of root to one stored form, children of every form of root are one level below it, members without STFS records are indexed as created entries, rebuilding forgets the old root',
         'archive/tar reading all three formats is assumed; the harness opens archives of all kinds (bounded).'),
 'C18': ('Keygen, parsing and use are executed one after another on the terms each has made: the private half parses exactly with its password (every primary key and subkey is unlocked), the public half parses, what one half seals or signs the other opens or accepts, halves of two pairs do not work together, other texts are not accepted',
         'age, OpenPGP and minisign are assumed to be sound (terms); the harness runs the real ones with many passwords (bounded).'),
}
c = json.load(open('/verif/checks.json'))
checks = []
for p in sorted(X):
    what, note = X[p]
    c[p]['level'] = 'proof'
    c[p]['explanation'] = 'Proved per function: ' + what + '. ' + note + ' Besides, bounded: ' + c[p]['rule'] + '.'
    checks.append(dict(property=p, quick_cmd=f'python3 /verif/check.py run {p} quick', thorough_cmd=f'python3 /verif/check.py run {p} thorough', technique=T, level='proof',
                       level_note=COMMON + 'Contracts: ' + what + '. ' + note))
json.dump(c, open('/verif/checks.json', 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='bash /verif/setup.sh', checks=checks, not_applicable=[],
               notes='No hooks: harnesses go in through go build -overlay. Fixes of defects are the fix: commits of /repo, listed with the known findings in known_findings.json.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
