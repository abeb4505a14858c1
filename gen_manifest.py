"""writes MANIFEST.json (checks listed here, reasons for what is not claimed)"""
import json
T = 'static analysis: abstract interpretation (value flow over the compiler\'s typed tree, loop summaries by induction, polynomial normal forms)'
BASE = ' Trusted: the analyser (gsa/), its models of library functions, the compiler front end, and the backend\'s group/field/pairing laws (C24). Obligations the analysis cannot settle are reported as undecided in the evidence and raise no alarm; on the current tree there are none.'
N = {
 'C01': 'Completeness for all sizes m,n>=1, all values, all random choices: verify(commit_and_prove(w)) and the step-by-step variant reduce to true, with no reachable abort.',
 'C02': 'verify is shown equal, as a condition on all inputs and for all sizes, to the four-component verification equation; that equation is shown to imply the statement on the extracted values for a binding key.',
 'C03': 'The CRS is computed as a function of the generator stream and compared with the prescribed form; each of the six quantities is one separate uniform draw.',
 'C04': 'Each commitment is compared with inclusion + key combination by its recorded row, for all lengths n>=1 and values.',
 'C05': 'Every blinding coefficient is one field draw of the caller\'s stream; all draw positions within commit_and_prove are pairwise distinct for all sizes.',
 'C06': 'pi and theta are compared with the Groth-Sahai formula for all sizes, with the mask T made of separate draws distinct from the commitment randomness.',
 'C07': 'Batch and repeated single commits are compared (values, randomness, stream position) for all lengths; append for all lengths.',
 'C08': 'commit_and_prove compared with batch commits followed by prove, for all sizes.',
 'C09': 'Every operator impl compared component by component with the group operation, sums for all lengths.',
 'C10': 'pairing and pairing_sum compared with the tensor product, for all lengths; unequal lengths never return.',
 'C11': 'Linear maps compared with their formulas; the four commuting identities are decided for an arbitrary key; batch maps for all lengths.',
 'C12': 'left_mul and right_mul (serial and parallel) compared with the matrix product for all conforming sizes; non-conforming shapes never return a value.',
 'C13': 'add, neg, scalar_mul and transpose compared entrywise for all sizes; mismatching add never returns.',
 'C14': 'Round trips compared with the identity for all lengths; wrong shapes never return.',
 'C15': 'Serialise and deserialise are analysed against the written log: every field equal, whole log consumed, size equal to the reported one, all (compress, validate) modes.',
 'C16': 'Deserialising an arbitrary stream with validation: Ok implies every decoded leaf was checked, both modes; check and batch_check cover every component.',
 'C17': 'verify with independent symbolic counts: a true result implies all prescribed counts and the kind, for all sizes m,n>=1 (zero-variable shapes enumerated).',
 'C18': 'prove with independent symbolic counts: returning implies all counts agree, for all sizes >=1 (shapes with an empty part enumerated).',
 'C19': 'Every call, static, unsafe block and type reachable in the crate is classified: no ambient randomness, clock, environment, I/O, thread identity, mutable global, interior mutability, unsafe code or capture of mutable state in parallel closures; randomness only via the caller\'s generator.',
 'C20': 'Every equality impl is compared with the conjunction of the equalities of all leaves, independent list lengths included.',
 'C21': 'Flow and visibility analysis: blinding randomness fields are not public, no public function hands them out, and which serialised components carry them (six serialised or Debug forms of the unchanged tree do; they are listed as known findings, any further one is a violation).',
}
CLAIM = open('/verif/claimed.txt').read().split()
NA = [
 ('C22', 'Computational indistinguishability under SXDH quantifies over adversaries and distributions; nothing in the shape of the code decides it.'),
 ('C23', 'Timing is determined by the external arithmetic backend and the machine; the arkworks operations called are themselves variable-time, so no source-level rule on this crate can establish it.'),
 ('C24', 'The backend crates are outside the repository; their laws are the trusted base of the other checks.'),
]
TECH = {'C19': 'static analysis: effect and call-graph analysis over the compiler\'s typed tree', 'C21': 'static analysis: information flow, visibility and serialised-field analysis over the compiler\'s typed tree'}
for k in sorted(set(N) - set(CLAIM)):
    NA.append((k, 'check under construction'))
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [
    {'property': k, 'quick_cmd': './check %s' % k, 'thorough_cmd': './check %s --thorough' % k, 'evidence_file': 'evidence/%s.json' % k,
     'technique': TECH.get(k, T), 'level': 'other', 'level_note': N[k] + BASE} for k in sorted(CLAIM)],
    'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
