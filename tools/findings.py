import json, sys
sys.path.insert(0, "/verif")
from checks.access import OR_TO_AND
what = "a key delegated after turning an Or of the parent's policy into an And is issued but decrypts to a wrong value: "
F = [{"property": "C05", "ident": n, "what": what + n} for n in OR_TO_AND]
F.append({"property": "C19", "ident": "parse: 12000 operands joined by & on a thread with a 2 MB stack",
          "what": "the formula parser recurses once per operand and parenthesis: a text of 12000 operands overflows a 2 MB stack and aborts the process"})
fixed = """
C10 6870931 master keys had one component too few: the last attribute creation of the budget could not be used
C10 64dc18e encrypt compared the number of attributes with the key size: out of range values panicked, repeated ones were refused
C01 64dc18e encrypting with an attribute listed more often than the key has components was refused
C09 f4319e2 delegating with a delegation key smaller than the user key panicked (index out of range)
C10 f4319e2 delegating for an attribute the delegation key has no material for panicked
C09 e9dde3c element counts of zero with data or overflowing counts panicked when deserializing vectors; short integers panicked
C09 6ad3e29 span program sizes whose product overflows, or with zero columns, panicked or allocated without bound
C09 ac84f4b keys and ciphertexts whose element counts disagree panicked on use; delegating an empty key panicked
C09 97237cd EncryptedHeader/ClearTextHeader shorter than their key size field panicked
C09 f67a365 header size of fewer than four bytes aborted the process (C interface); combined message sizes panicked (Python)
C17 f67a365 a combined message with an impossible header size panicked in Python instead of being refused
C16 56d0650 a too small block buffer was refused without reporting the required length
C14 f6d1dd1 an unknown WebAssembly cache handle trapped instead of returning an error
C15 a934fbf an error message containing a NUL character was lost (empty last error)
C08 b510ecc a ciphertext without attributes and a master key of an empty budget did not survive a round trip (empty vectors were written as no bytes at all)
C09 2cd97f8 a policy text whose axis names an attribute without values panicked when used in an access policy
C09 f4a695c a master private key with a zero element was accepted and panicked (division by zero) when issuing a key
C09 7e67530 header and metadata sizes close to 2^32 trapped in WebAssembly (position overflow)
C16 0051c4b null length and handle pointers were dereferenced in the C interface
""".strip().splitlines()
json.dump({"findings": F, "fixed": ["fixed: property=" + x for x in fixed]}, open("/verif/known_findings.json", "w"), indent=1)
