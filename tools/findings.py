#!/usr/bin/env python3
"""Writes known_findings.json. Nothing is listed under "known": every defect found was repaired."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [  # property, subject of the fix commit, what failed
 ("C14","U256 division when leading","U256 / U256 and 512-bit reduction returned wrong quotient and remainder (or overflow-panicked) when the leading remainder words equal the divisor's"),
 ("C13","Sum for U256","iter.sum::<U256>() started from one instead of zero"),
 ("C12","GeometricIter skip","geometric series: skip past the end and step_by on partial groups produced wrong elements"),
 ("C11","field power with exponent","pow(isize::MIN) panicked / returned a wrong value"),
 ("C12","conversion of minimum signed","FieldElement::from(iN::MIN) wrong or panicked"),
 ("C12","FieldElement::to_i128","to_i128 of the image of i128::MIN wrong"),
 ("C15","U256::from_decimal_str","from_decimal_str wrapped on overflow and panicked on non-ASCII text"),
 ("C15","deserializing malformed hex","serde decoding of malformed hex panicked, over-long hex was truncated silently"),
 ("C15","decoding a field element","decoding accepted field elements at or above the modulus"),
 ("C17","mixed addition of equal points","Jacobian + Affine of equal points returned infinity instead of the double"),
 ("C18","double_mul handles negative","double_mul ignored the sign of digits of the first scalar"),
 ("C18","double_base_mul with the point","double_base_mul with the point at infinity wrong"),
 ("C19","ECDSA verification rejects","verify panicked on r=0, s=0, off-curve or infinite keys"),
 ("C23","MmapVec drops","MmapVec dropped uninitialised slots and leaked or double-dropped elements"),
 ("C24","LoggingAllocator peak","peak counter missed the allocation that reaches the peak"),
 ("C24","formatting of allocation sizes","sizes just below a unit boundary were formatted with the wrong unit"),
 ("C03","verifier reports truncated","verify and proof_serialize panicked on truncated proofs"),
 ("C02","verifier rejects field elements","verify accepted (release builds) or panicked on (debug builds) field elements that are not in canonical form, so several byte strings encoded one proof"),
 ("C07","check_specific_constraint","check_specified evaluated the constraint at the previous row's x"),
 ("C07","RationalExpression::check","check of an inverse returned the un-inverted value, so sums containing inverses were judged wrongly"),
 ("C08","degree bound of polynomials","degree() of a polynomial applied to a proper fraction was below the true numerator degree"),
 ("C08","Constraints refuse trace lengths","from_expressions accepted trace lengths 0, 5, 7, 10, ... although only powers of two work"),
 ("C26","security_bits","security_bits used the bit length of the blowup, one more than its logarithm"),
 ("C26","max_proof_size","max_proof_size was smaller than actual proofs and underflowed for small traces"),
 ("C28","generated trace contract","the generated trace contract declared the constraint degree, not the padded number of constraint polynomials proofs contain, so proofs of degree 3, 5, 6, 7 could not be read"),
 ("C27","proof_serialize of empty","empty lists were exported as nothing, giving malformed JSON"),
]
log = subprocess.run(["git","-C","/repo","log","--format=%h %s","368f97c..HEAD"],capture_output=True,text=True).stdout.splitlines() 
out = []
for prop, subj, what in F:
    h = [l.split()[0] for l in log if subj in l]
    if h: out.append(f"fixed: property={prop} {h[0]} {what}")
    else: print("no commit for", subj)
json.dump({"known": [], "fixed": out}, open(os.path.join(ROOT,"known_findings.json"),"w"), indent=1)
open(os.path.join(ROOT,"known_findings.json"),"a").write("\n")
