#!/usr/bin/env python3
# Fills the tables of tools/design.md and writes DESIGN.md.
import json,glob,os
V='/verif/'
P={
'C01':('all byte strings / all 58^n texts: decode∘encode, encode∘decode, rejection of every other text; oracle: positional big-integer formula per 8/11 block','q ≤8 bytes, texts ≤11 chars and 1–4 after a full block; t ≤20 bytes, texts ≤22',39),
'C02':('tag, both keys, checksum bytes, missing or surplus bytes; oracle: address bytes = varint tag ‖ keys ‖ Keccak prefix; canonical re-encoding; base58 by contract C01','all 10-byte tags, 8 kinds of key (valid, invalid, non-canonical points), tail 1–2 (5), missing 1 (12)',30),
'C03':('symbolic transactions: every number any u64 in turn, all key/base/multisig inputs; oracle: reference encoder; equal value, all bytes consumed, Size()','inputs ≤1–2 (2–4), ring 2, outputs ≤2 (3), extra ≤2 (3); long lists of 129 (300)',6),
'C04':('as C03 for blocks, versions 1–5 incl. parent blocks','≤2 (5) hashes, branches ≤2 (4), depth ≤1 (3); 130 hashes, branch 15, depth 20 (127)',27),
'C05':('arbitrary bytes and arbitrary windows in valid encodings; parse → encode → parse is stable and keeps the id','≤8 (11) arbitrary bytes; window 2 (4) at each shape-deciding position',25),
'C06':('as C05 plus 9/10-byte varints at every count; panics, allocation beyond a multiple of the input','≤9 (12) bytes; window 2 (3); every count any 64-bit number',72),
'C07':('each message type: arbitrary payload bytes, windows, sizes of every width; panics, hangs (step limit), allocations','≤3 (4) bytes after a valid head; window 1 (2) anywhere; sizes <40 (300) and >4000 (2000)',17),
'C08':('encode every message with symbolic fields; oracle: independent portable-storage writer; both directions','lists 0–3 (5) and 15…683, texts 0–3, 63–64, 70, 16384+',27),
'C09':('every strict prefix of every encoded message; ids of any size 0–40','lists ≤2 (3)',25),
'C10':('write through every path, read in arbitrary pieces; oracle: 33-byte levin header','payload ≤3 (6) arbitrary bytes and 70000; 2 (3) cuts anywhere; every header field arbitrary',35),
'C11':('two symbolic transactions with equal (prefix) hash ⇒ equal; Keccak uninterpreted injective','shapes ≤1 (2) inputs/outputs; every number any u64; extra ≤35 (70)',7),
'C12':('two symbolic blocks of a version with equal id ⇒ equal parts','≤2 (5) hashes, branch ≤1 (3)',32),
'C13':('root against the CryptoNote tree_hash definition, commitment, branch recomputation','1–40 (200) symbolic hashes',15),
'C14':('all sequences of pushes (right, wrong, repeated info) against a list model of the storage','3 (4) pushes, indexes 0, 1, 2^32−1',23),
'C15':('AddBlock on real and invented storages; all observables before/after; refused ⇒ unchanged','histories of 2 (3) steps over 10 kinds of block; tops at 10 (all) heights',38),
'C16':('block fields vary in groups, all values; oracle: header rules as a predicate','3 histories × 11 (all) heights × 5 versions; timestamps, nonces, unlock, extra, amounts arbitrary',15),
'C17':('names and raw transactions in every combination, damage at any byte; reward against big-integer emission and a median of 100 sizes','named/supplied ≤2 (3), damage at 30 (300) positions, reward any u64',40),
'C18':('every uint32 height; also every map iteration order','exhaustive',2),
'C19':('exact integer formula, 128-bit; every supply, size ≤2^31, fee','5 versions × medians 3 (6)',16),
'C20':('reference formulas V1, V2, V4, V5 in integers; window selection; hostile histories','120-block windows in 4 (7) patterns with symbolic work; 3 (4) arbitrary timestamps; heights around every fork',19),
'C21':('sums without wrap against big integers, fee table by height and extra size; totals of a block','3 (4) inputs, 3 outputs with any u64 amounts',14),
'C22':('equal/unequal images decided symbolically over all pairs; ring offsets arbitrary; subgroup test on listed points','3 transactions × 2 (3) inputs; rings ≤7 (9)',6),
'C23':('ring-size limits by height, extra limits, fusion definition with a digit-decomposition oracle','2 (3) inputs; fusion: 3-digit amounts at 3 (5) positions; 10–17 (21) inputs',35),
'C24':('set model of checkpoints, arbitrary heights and hashes','3 (4) checkpoints',3),
'C25':('digit oracle: sum, single-digit chunks, dust; classification on every u64','6 (9) digits; 20-digit amounts with 2 (3)+2 nonzero digits',4),
'C26':('Mul128 and Div128p32 against exact integers','every operand',1),
'C27':('median, clamp, min/max, slice helpers against definitions','≤4 arbitrary (5 permuted) elements; slices ≤4 (6), ≤7 (12)',34),
'C28':('integer value of limbs mod 2^255−19, overflow, canonical bytes, aliasing','all limb vectors in range',3),
'C29':('integer value mod ℓ, canonical result','all 256/512-bit operands',5),
'C30':('real sign/check/ring/derivation code over formal scalars and points (contracts C29, C36); honest, forged and damaged signatures','rings ≤2 (4 signing, 3 checking); 14 kinds of change at any position; any output index',7),
'C31':('announcement of n ids with any known subset shape; requests compared with the list of missing ids','n up to 6 (all) counts around multiples of 128; see ASSUME',14),
'C32':('requested/delivered sets in every combination; kinds of damage; what reaches the chain','≤2 (3) blocks',42),
'C33':('arbitrary version, network id, contents, both directions','exhaustive in the fields',5),
'C34':('all sequences of list moves against a set model','4 (5) moves of 3 (4) connections with arbitrary ids',3),
'C35':('reference list of heights','grown chains ≤10 (20); invented chains of any height to 5·10^8',7),
'C36':('curve law, encode/decode, multiplication, tables, hash-to-point (section 4)','all operands; double multiplications: 3 (8) digit positions, 9 (12)-bit windows',204),
'C37':('reference parser of extra','≤6 (9) arbitrary bytes; 2 (4) fields with any varint; padding 252–260 (600), nonce 129 (126–260)',48),
 'C38':('state, answer and height stated from the told and the own chain; requests decoded on the other side','node height any below 2^31, any told height, top, checkpoint and state; chain requests of ≤3 (8) ids; whether a height counts from 0 or 1 at the edge of the unlock window is left open',17),
 'C39':('kinds, keys, amounts stated over the whole transaction','1–2 outputs of every kind with ≤2 (3) keys, ≤3 inputs of every kind, 0–2 coinbase outputs; any amounts and heights',26),
 'C40':('an arbitrary database of outputs, signature verdicts and proof-of-work verdict stands for the placeholders (section 3)','1–2 inputs with rings ≤2 (4), every answer; 4 (5) tops; any checkpoint and height',33),
}
props=[json.loads(l) for l in open(V+'properties.jsonl')]
rows=['| id | property | inputs and oracle | bounds: quick (thorough) | s |','|---|---|---|---|---|']
for p in props:
    t=P.get(p['id'])
    if t: rows.append(f"| {p['id']} | {p['title']} | {t[0]} | {t[1]} | {t[2]} |")
    else: print('no text for',p['id'])
seeds=['| planted bug | property | what it breaks | needs |','|---|---|---|---|']
for d in sorted(glob.glob(V+'seeded/*')):
    m=json.load(open(d+'/meta.json'))
    seeds.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
seeds.append('\nEach one is caught (exit 1, VIOLATION) by the quick check of the property it names; vcheck confirms it.')
s=open(V+'tools/design.md').read()
mut=open(V+'tools/mutants.md').read() if os.path.exists(V+'tools/mutants.md') else ''
s=s.replace('@TABLE@','\n'.join(rows)).replace('@SEEDS@','\n'.join(seeds)).replace('@MUT@',mut)
open(V+'DESIGN.md','w').write(s)
