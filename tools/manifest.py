#!/usr/bin/env python3
"""Writes MANIFEST.json; the properties not implemented yet go to not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('model-based random operation histories (proptest) against a map model', 'Random histories of up to 40 library calls over colliding ids, state compared with a model after every step. Samples histories, trusts the model and its own decoder of the format.'),
 'C02': ('model-based random histories plus exhaustive short alias sequences', 'Random histories biased to aliases and www. prefixes, and all alias operation sequences up to a fixed length over three sites. Trusts the model.'),
 'C03': ('model-based random histories with reopening, independent reader of the file', 'Every acknowledged change is looked up in the file with an independent decoder after every step.'),
 'C04': ('differential testing against an independent implementation of the derivation', 'Generated passwords compared with a separate implementation (sharing only the scrypt primitive) for random parameters, and metamorphic relations about aliases, notes and storages.'),
 'C05': ('generated-input search with a composition invariant', 'Composition of passwords for random parameters and for rare derived bytes, command line lengths and flags enumerated.'),
 'C06': ('model-based random histories with near-miss primary passwords', 'Histories of lock, unlock, wrong unlock and all operations; refusal and unchanged data checked.'),
 'C07': ('random histories with recognisable secrets and a search through everything written', 'Searches files for the secrets in many encodings; every value has to decrypt under the expected key. Other encodings would go unnoticed.'),
 'C08': ('random histories with uniqueness of all nonces, salts and secrets ever written', 'Collisions of nonces, salts, HMAC secrets over everything written in a history and across histories, plus bias tests of their bytes.'),
 'C09': ('random and systematic tampering with stored values', 'All kinds of modifications of ciphertexts; any value other than the original or an error is a violation.'),
 'C10': ('differential testing in both directions with an independent reader and writer', 'Files from an independent writer (many JSON styles, key order, unknown members) have to be read, files written have to be readable by an independent reader.'),
 'C11': ('round trip plus differential testing of recovery codes', 'Random and boundary-length passwords, random formatting of the code.'),
 'C12': ('random damage to recovery codes against an independent validator', 'Typos, missing, swapped and surplus lines; the error and its line compared with an independent validator.'),
 'C13': ('fault enumeration: every file-modifying system call times failure modes', 'A preloaded shim fails or kills at each file-modifying libc call of each mutating command; data not synced is dropped for power failures. Trusts the shim to see all calls.'),
 'C14': ('random histories with injected save failures plus systematic single faults', 'Arbitrary subsets of saves fail; session and file compared with the model.'),
 'C15': ('generated states of the file times generated answers', 'Dialogs of set-primary over states of the storage file, oracle computed from the answers.'),
 'C16': ('generated pairs of existing entry and spelling, byte comparison', 'Spellings and replies generated, one-shot and shell; declining has to leave the file byte-identical.'),
 'C17': ('model-based random command sequences, exact output prediction', 'Full output, prompts, exit codes and resulting file predicted for both modes.'),
 'C18': ('generated storage contents and filters against a predicted listing', 'The complete output is predicted, recovery codes are decoded independently.'),
 'C19': ('round trip through an independent QR decoder', 'The printed modules are decoded, including error correction consistency.'),
 'C20': ('generated secrets and a memory scan of the finished process', 'Memory of the application (with the repository\'s non-freeing allocator) is searched for secrets. Registers and kernel buffers are not looked at.'),
 'C21': ('mutation of storage files at byte, JSON and value level', 'Every command on mutated files; crash, changed file or success where an error is due is a violation.'),
 'C22': ('generated commands with byte comparison of file and records', 'File bytes and all records compared around each command.'),
 'C23': ('generated splits of codes into input lines against a dialog model', 'Dialog predicted by an independent validator of recovery codes.'),
 'C24': ('model-based random shell sessions', 'Sessions with locks, failures and malformed lines, history file inspected afterwards.'),
 'C25': ('differential testing against a reference matcher', 'Random patterns and names over a small alphabet; the recorded wildmatch defect is excluded by comparing with the matcher library in use.'),
 'C26': ('model-based random sessions on a pseudo-terminal', 'The complete screen contents are predicted for random command sequences and edited lines, terminal settings inspected at each prompt and in the end. Interrupting password prompts with Ctrl-C is not covered.'),
 'C27': ('fuzzing of input and arguments with structured generators', 'Random bytes, invalid UTF-8, overlong lines and ends of input at every prompt of every command; crash, hang or change after failure is a violation. Two recorded defects of dependencies are excluded by their exact situation.'),
 'C28': ('generated file system layouts with comparison of the whole tree', 'Locations, links, modes, owners and bystander files generated; everything compared before and after each command. Files outside the scratch tree are not watched.'),
 'C29': ('concurrent random histories checked against an atomic register', 'Threads and processes saving and reading one file; results checked against a register with atomic operations in real time. Interleavings are those which happen, not enumerated.'),
 'C30': ('model-based random histories against two maps', 'Histories of back end calls on real files, compared with a map for the session and one for the file after each call.'),
 'C31': ('random contents with recognisable secrets and a search through everything told', 'Errors, debug representations and unasked output are searched for the secrets in many encodings. Other encodings would go unnoticed.'),
}
done = os.environ.get('DONE')
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
main = ''.join(open(os.path.join(here, 'harness/src', f)).read() for f in os.listdir(os.path.join(here, 'harness/src')))
checks, na = [], []
for p in props:
    if 'id: "%s"' % p in main:
        tech, note = T[p]
        checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p,
            'technique': 'property-based testing: ' + tech,
            'level': 'fault_enumeration' if p in ('C13', 'C14') else 'exploration', 'level_note': note})
    else:
        na.append({'property': p, 'reason': 'check not finished yet'})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: the checks use the public library interface and the application itself.'},
  open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
