#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
ex = 'bounded exhaustive model checking of the real code against a reference model'
T = {
 'S01': ('model_checking', 'bounded model checking: exhaustive write histories of the real SHA-3 objects in lock step with an explicit-state sponge model', 'every message length to several blocks, every two-way split and every boundary-size write sequence to the stated depth, on the assembly, portable and generic-xor builds; longer histories are not explored'),
 'S02': ('model_checking', 'bounded model checking: exhaustive write/read/reset/clone histories of the real SHAKE objects in lock step with a sponge model', 'histories to the stated depth over block-boundary sizes; trusts the independent sponge written for this check'),
 'S03': ('exploration', 'exhaustive enumeration of (N,S) lengths and bounded histories against SP 800-185', 'lengths to two rates for both strings and alphabet histories; trusts the independent model'),
 'S04': ('model_checking', 'bounded model checking: exhaustive interleaved histories over several hash objects, one model per object', 'depth-bounded histories over two objects'),
 'M01': ('model_checking', 'bounded model checking: exhaustive write/reset histories of the real SM3 object against an SM3 model', 'every length to several blocks, splits and boundary histories'),
 'M02': ('model_checking', 'bounded model checking: exhaustive write/Sum/Reset histories and all Sum argument shapes', 'one recorded finding: Sum does not append to a non-empty argument'),
 'D01': ('model_checking', 'bounded model checking: exhaustive instantiate/generate/reseed histories and counter states against SP 800-90A', 'counter states forced over a boundary alphabet; crypto/aes is the trusted block cipher'),
 'D02': ('model_checking', 'bounded model checking: exhaustive request-length and refused-call histories against SP 800-90A', 'every length within the bound in every phase of short sequences'),
 'A01': ('model_checking', 'bounded exhaustive exploration of key-schedule histories and single-byte differences on both AES paths', 'all 256 values at every byte position of key and block; trusts crypto/aes'),
 'U01': ('exploration', 'exhaustive enumeration of CPUID answers with the identification instruction replaced by an enumerated table', 'one process per answer; the instruction wrapper itself is compared on this processor'),
 'C01': ('model_checking', 'bounded model checking: exhaustive words of group-action steps on the real code, commuting squares compared', 'all single steps, all pairs of adjacent primes, structured dense keys'),
 'C02': ('model_checking', 'bounded model checking: every single step and adversarial random-answer sequences of the real group action against a big.Int class-group-action model', 'random sources enumerated to the stated number of deviations'),
 'C03': ('exploration', 'exhaustive enumeration of one-bit corruptions, boundary encodings and adversarial random answers on the real validation, against an independent supersingularity test', 'every single-bit corruption of several valid keys plus boundary values'),
 'C04': ('fault_enumeration', 'exhaustive enumeration of random-stream values, fault positions, buffer sizes and import/export histories on the real key code against a rejection-sampling model', 'one fault or short-read pattern at every position'),
 'C05': ('exploration', 'exhaustive enumeration of boundary-limb and carry-chain operands, aliasing patterns and CPU paths against math/big', 'operands of the enumerated alphabets only'),
 'I01': ('model_checking', 'bounded model checking: exhaustive boundary and one-bit scalars on both sides of the real key exchange', 'both parties run on the real code, with export/import between'),
 'I02': ('model_checking', 'bounded model checking: enumerated scalars on the real code against a textbook isogeny model over math/big', 'boundary, one-bit and patterned scalars; affine textbook formulas'),
 'I03': ('model_checking', 'bounded model checking: exhaustive operation histories on a shared real KEM object against a SIKE specification model, with every random-source fault position', 'depth-bounded histories'),
 'I04': ('fault_enumeration', 'exhaustive enumeration of single-bit ciphertext alterations and non-canonical re-encodings against the SIKE rejection model', 'every bit of one ciphertext per field, patterns on more'),
 'I05': ('model_checking', 'bounded model checking: exhaustive import/export/generate histories on the real key objects against a key-store model', 'depth-bounded histories over boundary keys'),
 'I06': ('fault_enumeration', 'exhaustive enumeration of random-stream bits, fault positions and short reads on the real key generation', 'each bit of the stream alone, each fault position'),
 'I07': ('exploration', 'exhaustive enumeration of boundary-limb and carry-chain operands, aliasing patterns and CPU paths against math/big', 'operands of the enumerated alphabets only'),
 'I08': ('model_checking', 'exhaustive cross product of misuse combinations and buffer sizes on the real API with canaries', 'all field/variant/operation combinations'),
 'K01': ('model_checking', 'bounded model checking: exhaustive operation histories on a shared real multi-recipient KEM object against an mKEM model', 'depth-bounded histories, up to the stated recipients'),
 'K02': ('model_checking', 'bounded model checking: exhaustive operation histories on a shared real CSIDH multi-recipient object against a reference model', 'depth-bounded histories; the reference group action is independent big.Int code'),
 'K03': ('model_checking', 'bounded model checking: exhaustive histories over both SIKE implementations in lock step', 'depth-bounded histories'),
 'X01': ('model_checking', 'stateless model checking: controlled scheduler over the instrumented real code, all schedules up to a preemption bound, plus happens-before race detection', 'preemption bound stated in the evidence; scheduling points at every function of the packages'),
 'T01': ('model_checking', 'exhaustive replay of the same operation from one program state with every secret of an alphabet, comparing complete instruction and address traces of the real code (own tracing interpreter; valgrind for amd64 functions)', 'secrets beyond the alphabets, and instruction timing itself, are not covered'),
 'X02': ('model_checking', 'exhaustive enumeration of CPU-flag and build configurations, each replaying the same enumerated histories', 'builds and CPU paths available here; arm64 under an interpreter'),
}
done = set(open(os.path.join(here, 'tools', 'claimed')).read().split())
checks, na = [], []
for p in props:
    i = p['id']
    if i not in done:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    lvl, tech, note = T[i]
    checks.append({'property': i, 'quick_cmd': 'bash /verif/check.sh %s' % i,
        'thorough_cmd': 'bash /verif/check.sh %s -tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': lvl, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses reach the code through go.work and -overlay. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
