#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
COMMON = " Held on the executions of the run only; deterministic in VERIF_SEED. Trusts the Go toolchain and the reference models in harness/cmd/vmon."
T = {
 'C01': ("differential runtime monitor: generated programs run through the compiler, an independent interpreter of the language is the oracle", "Programs of the documented language are drawn, compiled, witnessed and checked against an interpreter and against the constraints, for right and wrong claimed outputs."),
 'C02': ("runtime monitor with single-assertion faults: each reached assertion is violated alone", "For every reached assertion an input is solved for that violates only it; the witness generation and the constraints must notice."),
 'C03': ("runtime monitor re-evaluating every constraint over each returned witness, and over single altered entries", "All constraints are evaluated with math/big for every witness returned, satisfying inputs or not."),
 'C04': ("differential runtime monitor of the dense against the sparse pipeline", "Matrices, transposes, witnesses, polynomials, quotients are compared entry by entry."),
 'C05': ("runtime monitor of the witness layout against the declaration", "The layout is derived from the argument list and the public declaration, and bad declarations must be refused."),
 'C06': ("trace comparison between executions with different histories in different processes", "Digests of gates, constraints and layouts of the same source are compared across histories and processes."),
 'C07': ("runtime monitor: honest dense proofs are verified, also re-encoded, re-represented and repeated", "Random programs and constraint systems, end to end."),
 'C08': ("runtime monitor: honest proofs of every combination of sparse and dense setup and prover", "Random programs and constraint systems, end to end."),
 'C09': ("fault injection into public signals with the verifier as the observed decision", "Altered lists that no constraint can tell apart are excluded by computing the difference over the matrices."),
 'C10': ("fault injection into proofs and keys with the verifier as the observed decision", "Single replacements, exchanges between proofs and keys, mauled elements."),
 'C11': ("fault injection into witnesses with divisibility and the verifier as observed decisions; a forging prover", "Own polynomial division decides divisibility; both provers are fed altered witnesses and foreign polynomials."),
 'C12': ("runtime monitor recomputing each reference string from its trapdoors, plus pairing relations without them", "Reads the trapdoor record of the setup by reflection."),
 'C13': ("runtime monitor comparing interpolated polynomials with matrices at all points", "Own evaluation of every polynomial at every constraint point, degrees, domain roots."),
 'C14': ("differential runtime monitor of field operations against math/big over several primes", "Operands in any representation."),
 'C15': ("differential runtime monitor of dense polynomials against a schoolbook reference", "Includes repeated interpolation under changing fields and sizes."),
 'C16': ("model-based runtime monitor: operation histories against a sorted map, sparse operations against schoolbook polynomials", "Whole tree compared at quiescent points and after each operation on the touched key."),
 'C17': ("differential runtime monitor of group operations against affine reference arithmetic", "Aliasing patterns, internal representations, exceptional operands."),
 'C18': ("runtime monitor of bilinearity, order and product checks", "Relations between pairings of known multiples; no independent pairing implementation."),
 'C19': ("fault injection into encodings with an independent decoder as oracle", "Round trips and corrupted byte strings."),
 'C20': ("Go race detector plus comparison of concurrent with sequential results", "Race-instrumented build of the library under concurrent workloads with shared read-only values."),
 'C21': ("runtime monitor of the token stream against an independent tokenization, and metamorphic layout changes", "Arbitrary bytes, mutated programs, layout changes."),
 'C22': ("runtime monitor of bit constraints with altered bits", "Every bit of sampled splits is altered; the honest digits are compared."),
 'C23': ("differential runtime monitor of base point multiplication against affine reference arithmetic", "Coordinates computed by the reference; wrong coordinates must be refused."),
 'C24': ("fault injection into sources: malformed programs must be refused in the caller", "Every kind of malformation is planted at drawn positions of drawn programs; randomly changed programs that compile must parse with an independent parser and mean what an independent interpreter computes."),
 'C25': ("runtime monitor comparing deep snapshots of all arguments around every call", "Field, polynomial, tree, group, circuit and proof operations."),
 'C28': ("runtime monitor of randomised against plain constraint systems and of the freshness of the random entry", "Rows, witnesses and transposes compared; every random entry of a run compared with all earlier ones of the process."),
 'C26': ("runtime monitor counting constraints against the number of distinct products", "Distinct products are counted on polynomial normal forms of subexpressions."),
}
NA = {'C27': "Hiding is a statement about the distribution of proofs over witnesses; no oracle over executions decides it. (The prover is in fact deterministic and applies no blinding, so the claim could only be refuted, by design of the scheme.)"}
checks = []
for p in props:
    if p['id'] in NA or not os.path.exists(os.path.join(here, 'harness')):
        continue
    t, n = T[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': './run.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p['id'],
                   'technique': t, 'level': 'exploration', 'level_note': n + COMMON})
import subprocess, re
have = set(re.findall(r'ID:\s*"(C\d\d)"', ''.join(open(os.path.join(here, 'harness/cmd/vmon', f)).read() for f in os.listdir(os.path.join(here, 'harness/cmd/vmon')))))
na = [{'property': k, 'reason': v} for k, v in NA.items()]
na += [{'property': p['id'], 'reason': 'no check yet'} for p in props if p['id'] not in have and p['id'] not in NA]
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'No hooks: the monitors observe the library through its exported interface (the trapdoors of a setup by reflection); /repo contains fix commits only.', 'source_commits': []},
     'checks': [c for c in checks if c['property'] in have], 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', 'not applicable:', [x['property'] for x in na])
