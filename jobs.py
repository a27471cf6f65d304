"""What each check runs: harness entries, their parameters (sizes), and the stated bounds."""
import itertools

MEM_GB = 5   # per worker, 8 workers

COMMON = [
    'rustc/LLVM compile /repo and the harness to the IR that is executed (release, opt-level 1, overflow checks on); the engine interprets that IR faithfully (sample paths are replayed natively on every run)',
    'z3 is sound',
    'allocation never fails; allocations above 4 MiB for inputs of at most a few hundred bytes count as out of proportion',
]


def J(entry, *params, secs=500, tier='quick', cost=None):
    """a harness with the cartesian product of its parameter ranges"""
    return dict(entry=entry, params=[p if isinstance(p, (list, tuple, range)) else [p] for p in params], secs=secs, tier=tier, cost=cost)


def expand(cfg):
    out, seen = [], set()
    for j in cfg['jobs']:
        for args in itertools.product(*j['params']):
            key = '.'.join([j['entry']] + [str(a) for a in args])
            if key in seen:
                continue
            seen.add(key)
            cost = j['cost'] if j['cost'] is not None else sum(args)
            out.append(dict(id=key, entry=j['entry'], args=list(args), secs=j['secs'], tier=j['tier'], cost=cost))
    return out


PROPS = {}

PROPS['C01'] = dict(
    jobs=[J('c01_roundtrip'), J('c01_read', range(0, 12))],
    bounds='writer: every 64-bit value; reader: every byte string of 0..=11 bytes (the longest form is 9)',
    outside='nothing relevant: the reader never looks past 9 bytes',
)

W = {0: 1, 1: 1, 2: 2, 3: 2, 4: 4, 5: 4, 6: 8, 7: 8, 8: 16, 9: 16, 10: 20, 11: 20, 12: 20, 13: 32, 14: 32, 15: 20, 16: 32, 17: 1}
PROPS['C02'] = dict(
    jobs=[J('c02_fixed', range(18), [0, 1, 2, 5])] + [J('c02_short', k, range(w)) for k, w in W.items()] + [J('c02_bool_any')],
    bounds='every value of the ten integer types, bool, the five hash types and fixed byte arrays of 20 and 32 bytes; 0, 1, 2 or 5 arbitrary bytes after them; every shorter input',
    outside='more than 5 following bytes',
)
PROPS['C03'] = dict(
    jobs=[J('c03_bytes', [0, 1, 2, 3, 7, 75, 76, 252, 253, 254, 300]), J('c03_bytes_long', [0xffff, 0x10000]), J('c03_bytes_any', range(0, 13)),
          J('c03_list_any', [0, 1], range(0, 9)), J('c03_list_any', [2, 4], range(0, 7)), J('c03_list_any', 3, [0, 1, 20, 21, 22, 41]), J('c03_list', [0, 1, 2], range(0, 4)),
          J('c03_list_any', [2, 4], [7, 8], tier='thorough', secs=3000), J('c03_list_any', [0, 1], range(9, 13), tier='thorough', secs=3000), J('c03_bytes_any', range(13, 24), tier='thorough')],
    bounds='byte strings of 0..=3, 7, 75, 76, 252..=254, 300 symbolic bytes and of 65535 and 65536 bytes with symbolic ends; decoding every input of 0..=12 bytes as a string and of 0..=8 bytes as a list of u8 or u32, 0..=6 bytes as a list of byte strings or of lists; lists of up to 3 items',
    outside='longer inputs; item types other than those instantiated',
)
PROPS['C05'] = dict(
    jobs=[J('c05_any', range(0, 6)), J('c05_push', 0, [1, 2, 74, 75], [0, 1]), J('c05_push', 1, [0, 1, 75, 76, 77, 255], [0]), J('c05_push', 1, [76, 255], [1]),
          J('c05_push', [2, 3], [0, 1, 75, 76, 255, 256, 300], 0), J('c05_push', [2, 3], [256], [1]), J('c05_hostile', [2, 4]),
          J('c05_any', [6, 7], tier='thorough', secs=7200)],
    bounds='every byte string of 0..=5 bytes; every single push form with lengths around its limits (0..=300 bytes, arbitrary data) followed by one arbitrary byte or truncated; every announced PUSHDATA2/PUSHDATA4 length over a short script',
    outside='arbitrary scripts longer than the bound, pushes beyond 300 bytes',
)
PROPS['C07'] = dict(
    jobs=[J('c07_encode'), J('c07_decode', range(0, 13)), J('c07_op', range(0, 8)), J('c07_bool'), J('c07_small')],
    bounds='every 32-bit script integer; every byte string of 0..=12 bytes',
    outside='longer byte strings',
)
PROPS['C08'] = dict(
    jobs=[J('c08_any', range(0, 13)), J('c08_long', [20, 40, 520], [1, 2, 3])],
    bounds='every byte string of 0..=12 bytes; strings of 20, 40 and 520 bytes made of up to 3 arbitrary bytes, zeros, and 2 arbitrary bytes',
    outside='other long strings',
)

PROPS['C04'] = dict(
    jobs=[J('c04_wire', range(3), range(3), range(5)), J('c04_id', [0, 1, 2], [0, 1, 2], [0, 2, 4]), J('c04_any', range(0, 21)), J('c04_script', [0, 1], range(6), [0, 1]), J('c04_script', 2, range(4), 0),
          J('c04_lengths', [4, 8]), J('c04_count', range(3), range(2)), J('c04_cut', 1, range(0, 80)), J('c04_cut', 2, range(0, 110)), J('c04_hashed_any', range(0, 21))],
    hash_samples=True,
    bounds='transactions of 0..=2 inputs and outputs with every field symbolic and five script shapes (empty, up to 303 bytes of symbolic data); decoding every byte string of 0..=20 bytes; transactions with one input and/or output whose script is any 0..=5 bytes (0..=3 for both); arbitrary script length bytes and input/output counts over a short remainder; truncation at every position of two transactions; hashed transactions read from any 0..=20 bytes',
    outside='more inputs or outputs, longer arbitrary scripts; SHA-256 itself (an uninterpreted function here, the real one in the native replays)',
)
PROPS['C06'] = dict(
    jobs=[J('c06_opcode'), J('c06_invalid'), J('c06_bool'), J('c06_int'), J('c06_push', [0, 1, 2, 75, 76, 77, 255, 256, 257], [0, 1]), J('c06_push_long', [0xffff, 0x10000], [0, 1]),
          J('c06_script', 1, range(5)), J('c06_script', 2, range(25)), J('c06_script', 3, range(0, 125, 3)), J('c06_any', range(0, 6)), J('c06_prefix', 0, [1, 2, 75]), J('c06_prefix', 1, [0, 1, 75, 76, 255]), J('c06_prefix', [2, 3], [0, 1, 76, 255, 256])],
    bounds='every single operation: every opcode and undefined byte, both booleans, every 32-bit script integer, pushes of 0..=257 (at and around each limit) arbitrary bytes and of 65535/65536 bytes with symbolic ends, minimal or not; scripts of 1..=3 operations of five kinds with symbolic contents; every byte string of 0..=5 bytes; every push prefix form with lengths around its limits',
    outside='longer scripts, other push lengths; raw push prefixes (0x01..=0x4e) used as a plain operation, which no script can contain',
)

PROPS['C09'] = dict(
    jobs=[J('c09_binop', range(8), range(15), secs=700), J('c09_compare', range(15)), J('c09_compare_int', range(5)), J('c09_convert', range(12)), J('c09_neg'), J('c09_shift', [0, 1]), J('c09_error', range(8)),
          J('c09_chain', [0, 1, 5, 6, 7], [0, 1, 5, 6, 7], range(3)), J('c09_chain', [3, 4], [0, 3, 5, 6, 7], 2, secs=900, tier='thorough')],
    bounds='no bound on values: all pairs of a script integer with a value of each of the 12 primitive integer types, a script integer or a result, for all eight binary operators; chains of two additions, subtractions or bit operations over any three script integers, and any operator on a failed operand',
    outside='chains with a multiplication, division or remainder inside (each link is decided on its own by c09_binop and c09_error); shifts are 32-bit shifts in which bits shifted out are dropped, as the existing tests assert',
)

PROPS['C10'] = dict(
    jobs=[J('c10_size', list(range(1, 10)) + [16, 255, 256, 520]), J('c10_any'), J('c10_back', range(1, 13))],
    bounds='every script integer; sizes 1..=9, 16, 255, 256, 520 in full, and every size at all for the decision to accept (content of accepted sizes up to 64)',
    outside='content of results longer than 64 bytes other than 255, 256 and 520',
)
PROPS['C11'] = dict(
    jobs=[J('c11_history', [2, 15, 152, 158, 582], [0], range(1, 5), range(0, 5), range(0, 4), 0), J('c11_history', [15, 52], [1, 2], range(1, 4), range(1, 4), range(1, 4), 0), J('c11_history', 15, [0], range(1, 4), range(1, 4), range(1, 4), range(1, 4)), J('c11_split_any', [0, 2], [1, 2]), J('c11_parts', range(5), [0, 1, 0x64, 0x94, 0x18]),
          J('c11_history', [152, 158, 582, 142], 0, range(1, 5), range(1, 5), range(1, 5), range(1, 5), tier='thorough', secs=3000)],
    bounds='every history of up to three operations (joins by concat, concat_named or from_parts, splits at every index up to one beyond the end, function applications with any function tag) over up to three atoms (plain bytes, function results, numbers) of 1 or 2 arbitrary bytes, and of up to four operations without further function applications over two atoms; every 64-bit split index beyond the end; from_parts of up to 4 parts',
    outside='longer histories, larger parts; the raw constructor from_preimage and applying the Plain function, which state whatever they are given',
)
PROPS['C12'] = dict(
    jobs=[J('c12_digest', range(5), [0, 1, 2, 19, 20, 32, 64, 300], [0, 1]), J('c12_slice', range(5), [0, 1, 19, 20, 21, 31, 32, 33, 40, 64]),
          J('c12_to_hex', range(5), 0, [20, 32]), J('c12_from_hex', range(5), [40, 64], [0, 19, 36], 4), J('c12_from_hex', range(5), [0, 1, 2, 39, 41, 63, 65], 0, [0]),
          J('c12_from_hex', range(5), [38, 41, 42, 44], 0, 4), J('c12_from_hex', range(5), 42, 38, 4), J('c12_from_hex', range(5), 44, 40, 4), J('c12_from_hex', range(5), [66, 68], 0, 4), J('c12_from_hex', range(5), 66, 62, 4), J('c12_from_hex', range(5), 4, 0, 4),
          J('c12_from_hex', range(5), [40, 64], range(0, 36, 5), 4, tier='thorough')],
    hash_samples=True,
    bounds='messages of 0, 1, 2, 19, 20, 32, 64 and 300 arbitrary bytes, plain or joined from two parts; slices of 0..=64 bytes around both widths with arbitrary content; to hex: every hash; from hex: texts of 40 and 64 characters of which any 4 adjacent ones (three places) are arbitrary ASCII, texts of other lengths, up to 4 characters longer among them with the first or last 4 arbitrary',
    outside='the primitive hash functions (uninterpreted; the real ones in the native replays); hex texts with more than four arbitrary characters, or beyond ASCII',
)

PROPS['C13'] = dict(
    jobs=[J('c13_roundtrip', [0, 1], range(4)), J('c13_upper', [0, 1], [0, 1])] + [J('c13_change', i, i, i, i % 2, i % 4) for i in range(42)] + [J('c13_change', i, (i + 1 + 3 * i % 40) % 42, i, i % 2, i % 4) for i in range(42)] + [J('c13_burst', i, i % 2, i % 4) for i in range(35)] + [J('c13_foreign', i, i % 2, i % 4) for i in range(42)] + [
          J('c13_text', [0, 1, 4], range(0, 10)), J('c13_symbols', list(range(0, 12)) + [34, 41, 42, 43, 50], 0), J('c13_symbols', [8, 34, 42], [1, 2]), J('c13_checksum', [0, 1, 8, 32, 33, 34, 35, 36], [0, 3]), J('c13_any', range(0, 4))] + [
          J('c13_change', i, j, j, i % 2, i % 4, tier='thorough') for i in range(42) for j in range(i + 1, 42)] + [
          J('c13_change', i, (i + 11) % 42, (i + 23) % 42, i % 2, i % 4, tier='thorough') for i in range(42)] + [
          J('c13_text', [0, 1, 4], range(10, 20), tier='thorough'), J('c13_symbols', [12, 20, 30, 33, 35, 40, 44, 60], range(4), tier='thorough')],
    bounds='every 160-bit hash, both types, four prefixes (including the empty one); every replacement of one symbol at each of the 42 payload places, of two symbols at 42 pairs of places (thorough: all 861 pairs and 42 triples), of any 8 adjacent symbols, and of one character by anything that is no symbol; every string of 0..=11, 34, 41..=43 and 50 symbols, every text of 0..=9 ASCII characters after up to 3 prefix characters, every payload with a right checksum of 0, 1, 8 and 32..=36 symbols, any 0..=3 bytes',
    outside='longer texts with characters beyond the 32 symbols at several places; mixed-case texts (decoded like lower case)')

PROPS['C14'] = dict(
    jobs=[J('c14_address', [0, 1]), J('c14_from', range(4)), J('c14_ops', 0, 0), J('c14_ops', 1, range(4)), J('c14_ops', 2, range(16)), J('c14_ops', 3, range(64)),
          J('c14_near', 0, range(26), 1), J('c14_near', 1, range(24), 1), J('c14_any', range(0, 4)), J('c14_spend', [0, 1, 2, 65, 72], [32, 33, 34])],
    bounds='every 160-bit hash and both address types; every script of 0..=3 operations of four kinds with symbolic contents, the two templates with any one operation replaced, removed or added (26 and 24 ways), every byte string of 0..=3 bytes as a script; spends with signatures of 0, 1, 2, 65 and 72 and keys of 32..=34 arbitrary bytes',
    outside='longer scripts that are not near a template; pushes with a longer prefix than needed are the same operations here')
PROPS['C15'] = dict(
    jobs=[J('c15_tx', [1], range(3), range(8), [0, 6], [1], [0]), J('c15_tx', [2], range(4), [0, 3, 6], [1, 4], [1], [0, 1]), J('c15_tx', [0, 3], [1], [1], [2], [1], [0]), J('c15_tx', 1, 1, [1, 3], 3, [0, 2], 0),
          J('c15_builder', [1, 2], range(3), [0, 3, 7], [5], [1, 2], 0), J('c15_builder', 1, [0, 1, 2], [2, 7], [0], [1], 1),
          J('c15_tx', 3, [0, 2, 4], [1, 7], 5, [1, 2], 0, tier='thorough', secs=1500), J('c15_builder', 3, [1, 2, 3, 4], [2, 6, 7], [2], [1], 0, tier='thorough', secs=3000)],
    hash_samples=True,
    bounds='every flag byte, symbolic, one to three per input and different ones for different inputs; transactions of 0..=3 inputs and 0..=3 outputs with every field symbolic; lock scripts of eight shapes (no separator, separators first, in the middle, twice, last, inside pushed data, a push of 300 bytes, three arbitrary opcodes) and output scripts of seven; through UnhashedTx, Tx and the builder with and without estimation',
    outside='more inputs or outputs, other scripts; flags beyond one byte (not encodable in a signature); SHA-256 itself (uninterpreted, the real one in the native replays)')
PROPS['C16'] = dict(
    jobs=[J('c16_build', [0, 1, 2], 1, range(3), [1000], [71]), J('c16_build', [1, 2], 2, range(9), [1000], [71]), J('c16_build', 1, 2, [3, 5, 8], [0, 1, 999, 50000], 72), J('c16_build', 2, 3, [3, 4, 7, 13, 14, 19, 21, 22], 1000, 71), J('c16_build', 0, 0, 0, 1000, 71),
          J('c16_rate', 1, 1, [1, 2], 64), J('c16_rate', 1, 2, [3], 64), J('c16_size', range(3), range(4), [1, 71, 300], [0, 1]),
          J('c16_build', 2, 3, range(27), 1000, 71, tier='thorough', secs=3000), J('c16_build', [1, 3], 3, range(27), 777, 72, tier='thorough', secs=3000), J('c16_rate', 1, 2, [4, 5, 7, 8], 64, tier='thorough', secs=3000)],
    bounds='0..=2 inputs and 0..=3 outputs, each a fixed one, a leftover or a leftover with its own bounds and precedence (nine pairs, eight triples; thorough: all 27 triples, 3 inputs); every 64-bit amount, bound and 32-bit precedence; rates 0, 1, 999, 1000, 50000 per thousand bytes, and every 64-bit rate with one input and up to two outputs; signatures of 1, 71, 72 and 300 bytes, plain and pay-to-script-hash',
    outside='more inputs or outputs; signatories whose script size depends on the outputs or the estimated size; the helper sums known_output_sum and input_sum beyond 64 bits')
PROPS['C17'] = dict(
    jobs=[J('c17_sign', 1, [0, 1, 2], range(4), 0, range(3)), J('c17_sign', 2, 1, range(16), [0, 1], [1, 3, 8]), J('c17_sign', 3, 2, [6, 27, 45], range(6), [5, 15, 21]),
          J('c17_continue', 1, 1, range(4), [0, 1], [0, 1]), J('c17_continue', 2, 2, range(16), range(4), 0), J('c17_continue', 3, 1, [6, 27, 45], range(8), 0), J('c17_continue', 2, 1, [6], [1, 2], 1),
          J('c17_sign', 3, 1, range(64), range(6), [5, 15, 21], tier='thorough', secs=600), J('c17_sign', 4, 1, [27, 180], range(24), [0, 40, 70], tier='thorough', secs=600), J('c17_continue', 3, 2, range(64), range(8), [0, 1], tier='thorough', secs=600)],
    hash_samples=True,
    bounds='transactions of 1..=3 inputs (thorough 4) and 0..=2 outputs with every field and signature symbolic; every combination of one or several preimages and plain or pay-to-script-hash for up to two inputs (three: three combinations, thorough all 64); every signing order; the three ways to sign in several mixtures; every subset of inputs signed before going through a builder again; a repeated signature for an already signed input after every step',
    outside='more inputs; signatories whose script depends on the estimated size (a continued transaction has another estimate) or is empty (an empty script counts as unsigned when a builder is made from a transaction); SHA-256 itself')
PROPS['C18'] = dict(
    jobs=[J('c18_op', range(16), [0, 2], [0, 1, 3]), J('c18_op', [0, 1, 2, 3, 9], [1, 3, 4, 5], 0), J('c18_two', [0, 1, 7, 8, 9], range(10), 1), J('c18_two', [2, 3, 6], [0, 1, 7, 8, 9], 1), J('c18_two', [2, 3], [2, 3], 1), J('c18_two', range(10), range(10), 1, tier='thorough', secs=3000), J('c18_tx', range(3), [0, 1], range(12)), J('c18_tx', range(2), 2, range(12)), J('c18_tx', 2, 2, [0, 2, 3, 9]), J('c18_tx', 2, 2, range(12), tier='thorough', secs=3000), J('c18_reference', range(11)), J('c18_circle', range(6)),
          J('c18_bytes', range(0, 520), [1, 2]), J('c18_base64', [1, 2], range(44)), J('c18_bytes', range(0, 520), 3, tier='thorough', secs=3000), J('c18_base64', 3, range(44), tier='thorough')],
    hash_samples=True,
    bounds='scripts of one or two operations out of 16 forms (all opcodes, undefined bytes, booleans, integers, byte arrays of ten shapes: named or not, every function, made from others or from nothing, nested), with source positions, source text and item names; up to two inputs and two outputs with every optional field present or absent; data of 0..=5 symbolic bytes; for import: one document with each reference being any digit, six circular or far references, and one or two bytes at any position (or of the base64 text) replaced by any ASCII (thorough: three)',
    outside='longer documents and scripts; other damaged documents; deep chains of preimages (recursion) and shared ones (expansion)',
    assumptions=['the hash of a HashMap key is a constant to the engine: std/hashbrown tables are taken to work for any hash function', 'SHA-256, SHA-1 and RIPEMD-160 are uninterpreted functions'])
PROPS['C19'] = dict(
    jobs=[J('c19_genesis', range(3), [0, 3], [0, 5], [0, 8], [0, 32], [0]), J('c19_genesis', 0, 1, [75, 76, 255, 256], [1, 75], [0, 64], [0, 1]), J('c19_genesis', [0], [76, 255, 256], 2, [76, 256], [32, 76, 256], 1),
          J('c19_send', range(3), [0, 1, 2, 3, 19]), J('c19_id', [0, 1, 20, 31, 32, 33, 64]), J('c19_unhashed', range(3), range(3)),
          J('c19_send', range(3), list(range(4, 33)), tier='thorough'), J('c19_genesis', 0, [1, 75, 76, 255, 256], [2, 75, 76, 255, 256], [0, 75, 76], [0, 32, 64], [0, 1], tier='thorough')],
    bounds='all three token types; every decimals, mint baton (or none), amount and token id; texts of 0, 1, 3, 5, 8, 32, 64, 75, 76, 255 and 256 characters, any ASCII and a two-byte character; sends with 0..=3 and 19 amounts (thorough: 0..=32)',
    outside='texts of other lengths, other multi-byte characters; whether the values given make a valid token (a document hash of the wrong length, more than 19 amounts): the messages contain what they are given')
PROPS['C20'] = dict(
    jobs=[J('c20_hash', range(5), [0, 1]), J('c20_hash_text', [0, 2], [0, 1, 2, 20, 38, 39, 41, 42, 64], 0, 2), J('c20_hash_text', [3, 4], [0, 1, 40, 62, 63, 65, 66], 0, 2), J('c20_hash_text', range(3), 40, range(0, 40, 3), 3), J('c20_hash_text', [3, 4], 64, range(0, 64, 3), 3), J('c20_hash_text', range(5), [1, 2, 3], 0, 3),
          J('c20_pubkey', [0, 1]), J('c20_pubkey_text', [0, 2, 64, 65, 67, 68, 132], 0, 2), J('c20_pubkey_text', 66, range(0, 66, 3), 3), J('c20_bytes', [0, 1, 2, 5, 20, 80], [0, 1]), J('c20_bytes_text', range(0, 6)),
          J('c20_script', [0, 1, 2, 3, 4, 5, 7], [0, 1]), J('c20_script', 6, 1), J('c20_script_text', range(0, 7)), J('c20_address', [0, 1], range(4), [0, 1]), J('c20_address_back', 0, range(4), [0, 19]), J('c20_address_back', 1, 0, range(20)), J('c20_address_text', range(12, 56), 1), J('c20_address_text', range(12, 55, 6), 2),
          J('c20_integer', list(range(16)) + [99]), J('c20_integer_bin', [0, 1]), J('c20_integer_text', range(10), [1, 2], [0, 1]), J('c20_integer_text', [0, 1], 3, [0, 1]), J('c20_integer_text', [3, 4], [5, 6], [0, 1]),
          J('c20_tx', range(3), range(3), [0, 1, 2, 3, 4, 5, 7], [0, 1]), J('c20_parts', range(5), [0, 1]), J('c20_bin_any', [0, 1, 2, 3, 4, 6, 7, 8, 9], [0, 1, 3, 4, 5, 8, 9, 20, 32, 36]), J('c20_bin_any', 5, [0, 1, 7, 8, 9, 10, 11]), J('c20_bin_length', [0, 1], [0, 1, 2, 5, 33, 34]), J('c20_bin_length', 2, range(5)), J('c20_address_any', range(0, 4)),
          J('c20_json_any', range(8), range(0, 4)), J('c20_json_any', range(8), 4, tier='thorough', secs=3000)],
    hash_samples=True, bounds='every hash of the five kinds, public key, byte arrays of up to 80 bytes, scripts of the eight shapes, every address hash of four prefixes written as text (read back with one of its 20 bytes arbitrary), transactions of up to 2 inputs and 2 outputs in eight script shapes; integers: every 4-byte binary form, decimal texts of up to 3 arbitrary digits (and 1, 2, 5, 6 digits around the limits); as malformed input: hex texts with up to 3 arbitrary characters at lengths around the right one, an address with 1 or 2 changed characters, arbitrary binary input of up to 36 bytes with length fields small or huge, every JSON text of up to 3 (thorough: 4) bytes',
    outside='other serde formats than serde_json and bincode; longer values; three or more changed address characters; "-0" (serde_json hands it over as a fraction); upper-case address characters, which are read leniently')
PROPS['C21'] = dict(jobs=[J('c21_any')], bounds='every value of both kinds', outside='nothing')
PROPS['C22'] = dict(
    jobs=[J('c22_byte'), J('c22_script'), J('c22_behavior'), J('c22_distinct'), J('c22_names', list(range(0, 192, 8)), 8)],
    bounds='no bound: every byte value and every opcode',
    outside='the per-item change kinds (delta), which nothing uses; opcodes whose effect depends on the values (OP_IFDUP, OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY: not declared) and the depth part of OP_PICK and OP_ROLL')
PROPS['C23'] = dict(
    jobs=[J('c23_codec', [1, 3, 4, 6], 0, [0, 1, 3]), J('c23_codec', [0, 2, 5], range(0, 4), [0, 1, 3]), J('c23_any', range(7), range(0, 6)), J('c23_any', 0, [31, 70, 84, 86]), J('c23_any', 5, [7, 8, 9, 12])],
    bounds='seven structs (plain fields of every kind, one field, fields skipped first, in the middle and last, all skipped, attributes of other derives, nested structs and lists of them, fields of the same type) with every field symbolic, lists and byte strings of up to 3 items, 0, 1 or 3 bytes following, every truncation; every byte string of 0..=5 bytes',
    outside='other structs: the corpus stands for them (the derive macro runs at compile time, so one program at a time is decided for all values); structs the macro refuses (generic, tuple and unit structs)')
PROPS['C24'] = dict(
    jobs=[J('c24_script', range(13), range(4))],
    bounds='a family of 13 script functions that uses every form of statement the macro knows (operations with and without names, placeholders, renaming, parameters and literals pushed with and without names, depth_of and depth_of_offset, OP_PICK and OP_ROLL at depths known when compiling, the altstack, conditionals nested and flat, with and without OP_ELSE, OP_NOTIF, variants of one and two conditions, debug information switched off, parameters by reference); all inputs and parameters symbolic (byte strings of up to 4 bytes, numbers, booleans), both branches',
    outside='other scripts: the family stands for them (the macro runs at compile time, so one program at a time is decided for all values); that wrong names are refused (no program to run); branches that leave different stacks, depths computed at run time',
    assume=['script execution is the interpreter in harness/src/c24.rs'])
PROPS['C25'] = dict(jobs=[J('c25_code', 0, 0), J('c25_code', 1, range(5)), J('c25_code', 2, range(25)), J('c25_code', 3, range(125)), J('c25_code', 4, 0), J('c25_bytes', range(0, 5))],
    bounds='scripts of 0..=3 operations of five kinds (code separators among them) with symbolic contents, one of 4, every byte string of 0..=4 bytes as a script; every separator number',
    outside='longer scripts')

HOOKS = dict(guard='none', enable='no hooks in /repo: the harnesses use its public interface', source_commits=[])

NOT_APPLICABLE = dict(
    C27='ECDSA/Schnorr run in libsecp256k1 (C, through FFI) or the rust secp256k1 field arithmetic: the property is an algebraic fact about 256-bit elliptic curve arithmetic plus unforgeability, which no SMT encoding of the code decides',
)
