"""Independent model of SIKE (uncompressed): SHAKE from hashlib, isogenies from the reference."""
import hashlib
from pok import *
from p12 import ref_keygen, ref_agree, gens, edge_keys, skb
def shake(n, *parts): return hashlib.shake_256(b''.join(parts)).digest(n)
def mask_bits(b, nb): return int.from_bytes(b, 'little') & ((1 << nb) - 1)
class Key:
    """sk = s || SK_B || pk"""
    def __init__(s, bits, sk): m = MSGB[bits]; s.bits, s.sk, s.s, s.b, s.pk = bits, sk, sk[:m], int.from_bytes(sk[m:m + SKB[bits]], 'little'), sk[m + SKB[bits]:]
def mkkey(bits, s, b):
    pk = ref_keygen(bits, 'B', b)[0]; return Key(bits, s + b.to_bytes(SKB[bits], 'little') + pk)
def ephemeral(bits, m, pk): return mask_bits(shake(SKA[bits], m, pk), BITS_A[bits])
def encaps(bits, pk, m):
    e = ephemeral(bits, m, pk); c0 = ref_keygen(bits, 'A', e)[0]; j = ref_agree(bits, 'A', e, pk)
    ct = c0 + bytes(a ^ b for a, b in zip(m, shake(MSGB[bits], j))); return ct, shake(SSB[bits], m, ct)
def open_ct(key, ct):
    """message the ciphertext carries for this key, or None when the received points are degenerate"""
    j = ref_agree(key.bits, 'B', key.b, ct[:-MSGB[key.bits]])
    return None if j is None else bytes(a ^ b for a, b in zip(ct[-MSGB[key.bits]:], shake(MSGB[key.bits], j)))
def reject(key, ct): return shake(SSB[key.bits], key.s, ct)
