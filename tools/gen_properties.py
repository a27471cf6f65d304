import json
def P(id,title,statement,over,qt,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return d
B='bitcoin-cash/src/'; A='bitcoin-cash-base/src/'
L=[]
L.append(P('C01','CompactSize lengths round-trip and use the shortest form',
 'Writing any 64-bit length in the variable-length wire format and reading it back gives the same number and consumes exactly the bytes written, and the writer always picks the shortest of the four forms. Reading from any byte string either yields the little-endian value of the form announced by the first byte or, if the bytes run out, an error; it never panics.',
 ['inputs'],'all u64 values; all byte strings of up to 10 bytes',
 'Tests sample six lengths; the boundaries 0xfc/0xfd, 0xffff/0x10000, 2^32-1/2^32 and every truncation are a property of all values.',
 [A+'encoding_utils.rs'],[('read_var_int / write_var_int / encode_var_int',A+'encoding_utils.rs')],['read_var_int','write_var_int','encode_var_int']))
L.append(P('C02','Fixed-width fields are little-endian and consume exactly their width',
 'Every fixed-width integer, boolean and fixed-size hash field encodes to exactly its width in little-endian (hashes: stored order), decodes back to the same value, and leaves exactly the remaining bytes as the leftover. Decoding from too few bytes, or a strict decode with bytes left over, is an error and never a panic.',
 ['inputs'],'all values of u8..u128/i8..i128/bool and the 20/32-byte hashes, all trailing bytes within the bound, all truncations',
 'The test samples one value per width in one struct; byte order and leftover handling must hold for every value and every truncation.',
 [B+'bitcoin_code.rs',B+'hash.rs'],[('BitcoinCode for integers, bool, FixedByteArray, hashes',B+'bitcoin_code.rs')],['BitcoinCode::ser','BitcoinCode::deser','BitcoinCode::deser_rest']))
L.append(P('C03','Length-prefixed strings and lists decode exactly and reject hostile input',
 'A byte string, or a list of encodable items, is encoded as its count followed by its content, and decodes to the same value with exactly the following bytes left over. Any byte string offered for decoding gives either a value whose content is taken from those bytes in order or an error; a hostile length never causes a panic, an abort or an allocation out of proportion to the input.',
 ['inputs'],'all byte strings and lists within the size bound; all hostile buffers within the bound, including every announced length up to 2^64-1',
 'Tests decode well-formed buffers only; a count larger than the remaining data is never offered.',
 [B+'bitcoin_code.rs',B+'deserializer.rs',B+'serializer.rs'],[('read_size, ByteArray and Vec<T> codecs',B+'bitcoin_code.rs'),('encode_bitcoin_code_all / decode_bitcoin_code_all',B+'serializer.rs')],['BitcoinCode for ByteArray','BitcoinCode for Vec<T>','decode_bitcoin_code_all']))
L.append(P('C04','Transactions survive the wire and their id is the hash of their bytes',
 'Serialising any transaction gives version, inputs, outputs and lock time in consensus order, and decoding those bytes gives back a transaction with the same wire-visible fields and nothing left over. Decoding any truncated or corrupted transaction gives an error or a transaction that re-encodes to the same bytes for canonical input, never a panic. A hashed transaction exposes exactly those bytes as its raw form and their double SHA-256 as its id.',
 ['inputs'],'all field values for shapes of up to 2 inputs/2 outputs with scripts within the bound; all hostile buffers within the bound',
 'Tests decode two real transactions; field order, widths and shapes are only sampled.',
 [B+'tx.rs',B+'bitcoin_code.rs',B+'script.rs','bitcoin-cash-code/src/lib.rs'],[('derived codec of UnhashedTx, TxInput, TxOutput, TxOutpoint',B+'tx.rs'),('UnhashedTx::hashed',B+'tx.rs')],['UnhashedTx::ser','UnhashedTx::deser','UnhashedTx::hashed','Tx::raw','Tx::hash']))
L.append(P('C05','The two script parsers accept the same bytes and yield the same operations',
 'For every byte string, parsing it as a script through the slice parser and through the provenance-tracking parser either both fail or both give the same list of operations, including pushed data and whether each push was minimal. Neither parser panics on any input.',
 ['inputs'],'all byte strings up to the length bound',
 'Tests feed a handful of well-formed scripts to one parser or the other; truncated pushes and unusual push opcodes are not compared.',
 [B+'script.rs'],[('deserialize_ops, deserialize_ops_byte_array',B+'script.rs')],['deserialize_ops','deserialize_ops_byte_array','Script::deser_ops']))
L.append(P('C06','Script serialisation is minimal, value-preserving and parses back',
 'Serialising any operation gives the consensus encoding: plain opcodes as one byte, pushes marked minimal with the shortest legal push form, and pushes that leave exactly the announced value on the stack. Parsing the serialised script gives operations that serialise to the same bytes and push the same values, in the same order. Parsing any byte string that uses the shortest push prefix for each length and serialising it again gives the same bytes.',
 ['inputs'],'all opcodes, all integers, all booleans, all pushes within the length bounds (including the 75/76, 255/256 and 65535/65536 boundaries), all scripts up to the byte bound',
 'Tests check selected lengths; sign/zero corner cases, one-byte special pushes and each boundary are a statement about all contents.',
 [B+'script.rs',A+'op.rs',A+'encoding_utils.rs'],[('serialize_push_prefix, serialize_op, serialize_ops',B+'script.rs')],['serialize_op','serialize_ops','Script::ser_ops','Script::deser_ops']))
L.append(P('C07','Script numbers encode minimally and decode to the same integer',
 'Encoding any valid script integer gives the unique minimal sign-magnitude little-endian form (at most four bytes) and decoding it gives the integer back. Decoding any byte string gives its exact sign-magnitude value when that value is representable and an error otherwise, never a wrapped or truncated number.',
 ['inputs'],'all i32 integers except -2^31; all byte strings up to the length bound (at least 6 bytes)',
 'Tests list a few dozen vectors; overflow from long or padded encodings needs every bit pattern.',
 [A+'encoding_utils.rs',A+'op.rs'],[('encode_int, vec_to_int',A+'encoding_utils.rs'),('Op::to_integer',A+'op.rs')],['encode_int','vec_to_int','Op::to_integer']))
L.append(P('C08','Minimal re-encoding keeps the number and is canonical',
 'Minimally re-encoding any byte string never changes the number it denotes, never lengthens it, and yields the shortest byte string denoting that number. Applying it again changes nothing.',
 ['inputs'],'all byte strings up to the length bound',
 'Tests use fixed vectors; the trailing-sign-byte cases depend on every combination of trailing bytes.',
 [A+'encoding_utils.rs'],[('encode_minimally',A+'encoding_utils.rs')],['encode_minimally']))
L.append(P('C09','Script integers stay in range and arithmetic is exact or an error',
 'A script integer value can only be constructed within -(2^31-1)..=2^31-1. Addition, subtraction, multiplication, division, remainder, negation and bit operations on script integers give the mathematically exact result when it is in range and an error otherwise, never a wrapped value or a panic, and errors propagate through chained expressions. Comparison and equality agree with the numbers denoted, across all the integer types they are defined for, and conversions to and from primitive integers either preserve the value or fail.',
 ['inputs'],'all pairs of i32 values and all values of each primitive integer type convertible to a script integer',
 'Tests touch single examples of each operator; overflow boundaries are two-dimensional.',
 [A+'integer.rs'],[('Integer, IntegerResult and their operator impls',A+'integer.rs')],['Integer::new','std::ops impls','PartialOrd/PartialEq impls','From/TryFrom impls']))
L.append(P('C10','Number-to-binary conversion has the exact size or fails',
 'Converting an integer to a byte string of a requested size yields exactly that many bytes denoting exactly that integer in sign-magnitude little-endian form, whenever the integer fits. It fails exactly when the size is not positive or the integer does not fit, and never panics.',
 ['inputs'],'all script integers; sizes 1..=bound for the content and every size for the accept/reject decision within the bound',
 'Tests cover a few sizes; the fit decision is a two-dimensional boundary.',
 [A+'byte_array.rs',A+'opcode.rs'],[('ByteArray::from_int',A+'byte_array.rs')],['ByteArray::from_int','func::OP_NUM2BIN']))
L.append(P('C11','Joining and splitting byte arrays keeps bytes and provenance consistent',
 'Joining byte arrays yields the concatenation of their bytes and splitting yields the two halves, with an error exactly when the index is beyond the end. Whatever sequence of joins, splits and function applications produced it, a byte array that claims to be a plain composition of parts has parts whose bytes concatenate to its own bytes, and its function tag is preserved for untouched parts.',
 ['inputs','histories'],'all byte contents and split positions over trees of joins/splits/function tags up to the depth bound',
 'Tests build a few fixed trees; splitting inside nested or tagged parts is not exercised.',
 [A+'byte_array.rs'],[('concat_named_option, split, from_parts, apply_function',A+'byte_array.rs')],['ByteArray::concat','ByteArray::split','ByteArray::from_parts','ByteArray::preimage','ByteArray::function'],
 [('preimage','parts a byte array was composed of, or the argument of the function that produced it',A+'byte_array.rs')]))
L.append(P('C12','Hash values carry their algorithm and convert byte orders losslessly',
 'Digesting a message with each of the five hash types gives the composition of primitive hashes the type stands for, of the right length, tagged with that function and with exactly the message as its preimage. Building a hash from a slice or hex string succeeds exactly for the right length and valid hex, and the big-endian and little-endian views are byte reversals of each other that round-trip.',
 ['inputs'],'all messages up to the length bound (primitive hashes uninterpreted); all hash contents; hex strings within the length bound',
 'Tests compare a few digests; length/hex rejection and the reversal law are universally quantified.',
 [B+'hash.rs'],[('Hashed and its five implementations',B+'hash.rs')],['Hashed::digest','Hashed::from_slice','Hashed::from_hex_le','Hashed::from_hex_be','Hashed::to_hex_le','Hashed::to_hex_be','Hashed::to_vec_le']))
L.append(P('C13','CashAddr strings round-trip, detect corruption and never crash the parser',
 'Encoding any 20-byte hash with any address type and prefix gives a CashAddr string that decodes to the same hash, type and prefix, with or without an explicit matching prefix. Changing up to two characters of the payload of a valid address is always rejected, and any string at all is either decoded or rejected with an error, without a panic; whatever is accepted re-encodes to the same (lower-case) address.',
 ['inputs'],'all hashes, both types, the known prefixes; every corruption of up to two payload characters; all strings within the length bound including well-checksummed strings of the wrong length',
 'Tests sample a handful of addresses; the error-detection guarantee is over 32^2 substitutions at every pair of positions.',
 [B+'address.rs'],[('_to_cash_addr, _from_cash_addr, _convert_bits, _poly_mod',B+'address.rs')],['Address::from_hash','Address::from_cash_addr','Address::cash_addr']))
L.append(P('C14','Addresses and locking scripts map to each other exactly',
 'The locking script of an address is the standard P2PKH or P2SH template around its hash, and classifying that script gives the same address back. Classifying any script yields an address only for the exact standard templates, P2PK and OP_RETURN data for theirs, and unknown otherwise; recognising a P2PKH spend returns exactly the pushed signature, flags and key. No script makes classification panic.',
 ['inputs'],'all hashes and both address types; all scripts up to the byte/operation bound',
 'Tests classify a few hand-written scripts; near-miss templates (wrong hash length, extra op) are unlimited.',
 [B+'scripts.rs',B+'destination.rs'],[('p2pkh_script, p2sh_script',B+'scripts.rs'),('script_destination, script_p2pkh_spend',B+'destination.rs')],['Address -> Script','script_destination']))
L.append(P('C15','Signature-hash preimages follow the BCH specification for every flag',
 'For every transaction and every signature-hash flag combination the digest preimage built for an input is the specified concatenation: version, prevouts hash, sequences hash, outpoint, script code after the first code separator, value, sequence, outputs hash, lock time and hash type, with the flag-dependent hashes zeroed exactly when the specification says so. Preimages are produced for every input and every requested flag, in order.',
 ['inputs'],'all 256 flag values and all field values for shapes of up to 2 inputs/2 outputs',
 'Tests cover one or two flag values on fixed transactions.',
 [B+'tx_preimage.rs',B+'tx.rs'],[('TxPreimage::build_preimages',B+'tx_preimage.rs')],['UnhashedTx::preimages','UnsignedTx::preimages','TxPreimage::ser']))
L.append(P('C16','Built transactions never overspend and pay at least the requested fee',
 'Building a transaction fails exactly when the fixed outputs exceed the inputs; otherwise every fixed output appears with its value and order kept, leftover outputs get a value within their bounds or are dropped, and the outputs never exceed the inputs. When a leftover output receives the remainder, what is left for the miner covers the requested rate times the estimated size.',
 ['inputs'],'all input and output amounts, leftover bounds, precedences and fee rates within the bound, for up to 2 inputs and 3 outputs',
 'Tests use a few amounts; the leftover/bounds/fee interaction is a piecewise function over six integers.',
 [B+'tx_builder.rs'],[('TxBuilder::build, estimate_size, make_outputs',B+'tx_builder.rs')],['TxBuilder::build','UnsignedTx::complete_tx','UnsignedTx::estimated_size']))
L.append(P('C17','Signing fills exactly the chosen input, once, with the right script',
 'Signing an input sets only that input, keeps outpoint, sequence, value and lock script, and builds the unlocking script from that input\'s own preimages and signatures, followed by the redeem script push exactly for pay-to-script-hash. Signing an input a second time is an error and changes nothing; the outcome does not depend on the order inputs are signed in, and both ways of supplying the signatory give the same input. A partially signed transaction can be turned back into a builder and continued with the same result.',
 ['inputs','histories'],'all field values and signature bytes, every signing order and repetition for up to 2 inputs',
 'Tests sign a fixed transaction in one order.',
 [B+'tx_builder.rs',B+'scripts.rs'],[('sign_input_dyn, sign_input_signatory, complete_tx, partial_tx, from_tx',B+'tx_builder.rs')],['UnsignedTx::sign_input','UnsignedTx::sign_input_signatory','UnsignedTx::complete_tx','UnsignedTx::partial_tx']))
L.append(P('C18','The JSON exchange format preserves transactions and rejects bad references',
 'Exporting a transaction to JSON and importing it gives an equal transaction, including every operation, its source tags and names, and the provenance of every byte array. Importing a document whose references are out of range or circular gives an error, never a panic or unbounded recursion.',
 ['inputs'],'all contents of byte arrays, integers and references for transaction shapes within the bound',
 'Tests round-trip one transaction; malformed references are never offered.',
 [B+'serialize_json.rs'],[('tx_to_json, json_to_tx, JsonData::get_byte_array',B+'serialize_json.rs')],['tx_to_json','json_to_tx']))
L.append(P('C19','SLP token messages follow the SLP specification byte for byte',
 'The genesis and send outputs are OP_RETURN scripts with the SLP lokad id, token type 1, the transaction type and the fields in specification order, using only push opcodes 0x01 to 0x4e, amounts as 8 big-endian bytes and the token id in display order. Every field value given by the caller appears unchanged.',
 ['inputs'],'all amounts, decimals, token ids and string/hash contents within the length bound; 1..=19 outputs',
 'Tests compare one genesis and one send script.',
 ['bitcoin-cash-slp/src/lib.rs'],[('genesis and send script builders','bitcoin-cash-slp/src/lib.rs')],['slp genesis script','slp send script']))
L.append(P('C20','Human-readable and binary serde forms round-trip and reject bad input',
 'Hashes, public keys, scripts, addresses, byte arrays and script integers deserialise from what they serialise to, both in human-readable and binary formats. Malformed text, wrong lengths and out-of-range integers are reported as errors, never as a panic.',
 ['inputs'],'all contents; all text/byte inputs within the length bound',
 'Tests round-trip single examples; wrong-length inputs are not offered.',
 [A+'byte_array.rs',A+'integer.rs',B+'hash.rs',B+'pubkey.rs',B+'script.rs',B+'address.rs'],[('Serialize/Deserialize impls',A+'byte_array.rs')],['serde::Serialize','serde::Deserialize']))
L.append(P('C21','Relative lock times map to BIP68 sequence numbers',
 'Every relative lock expressed in blocks maps to a sequence with the type flag clear and the block count in the low 16 bits, and every one in 512-second units to the same with the type flag set. The disable flag is never set, so the lock is always enforced.',
 ['inputs'],'all 2 x 65536 values','Tests do not cover it at all.',
 [B+'sequence.rs'],[('CsvTimedelta::sequence',B+'sequence.rs')],['CsvTimedelta::sequence']))
L.append(P('C22','Opcode numbers, names and stack behaviour agree with each other',
 'Every byte maps to at most one opcode and back to the same byte, each opcode has the consensus number for its name, and the declared stack behaviour of each opcode (items taken, items left, order) matches what the opcode does in script execution.',
 ['inputs'],'all 256 byte values and every opcode','No test walks the table.',
 [A+'opcode.rs'],[('Opcode, Opcode::behavior, Opcode::retains_input',A+'opcode.rs')],['Opcode from/to u8','Opcode::behavior']))
L.append(P('C23','Derived struct codecs write fields in order and skip what is marked',
 'For any struct with a derived codec the encoding is the concatenation of the encodings of its fields in declaration order, omitting fields marked as skipped, and decoding gives the fields back with skipped fields at their default, leaving the remaining bytes untouched.',
 ['inputs','programs'],'all field values for a family of structs (named, tuple-typed, nested, generic, skipped fields) compiled with the derive',
 'Tests derive for four structs with sampled values.',
 ['bitcoin-cash-code/src/lib.rs'],[('BitcoinCode derive macro','bitcoin-cash-code/src/lib.rs')],['derive(BitcoinCode)']))
L.append(P('C24','Compiled scripts compute what the script function says',
 'A script written as a function compiles to operations that, run on a stack holding the declared inputs, perform exactly the operations written, on the values named, in both branches of conditionals, with variables moved or copied as written; the generated ops carry the pushed parameters unchanged.',
 ['inputs','programs'],'all input stacks for a family of scripts compiled with the macro',
 'Tests compare the op lists of fixed scripts; that the ops compute the function for all inputs is not checked.',
 ['bitcoin-cash-script-macro/src/generate.rs','bitcoin-cash-script-macro/src/state.rs','bitcoin-cash-script-macro/src/parse.rs'],[('script attribute macro','bitcoin-cash-script-macro/src/generate.rs')],['#[script] generated ops']))
L.append(P('C25','Script code is everything after the chosen code separator',
 'The script code for signing from the n-th code separator is exactly the operations after it, from no separator it is the whole script, and the default form is everything after the first separator or the whole script if there is none.',
 ['inputs'],'all scripts of up to the operation bound, every separator position','Tests cover scripts without separators.',
 [B+'script.rs'],[('to_script_code, to_script_code_first',B+'script.rs')],['Script::to_script_code','Script::to_script_code_first']))
L.append(P('C26','Library script functions compute the consensus result',
 'Each script operation offered as a library function gives the result script execution gives for the same operands: arithmetic, comparison, boolean, byte-string, number conversion and hash operations, with an error where execution would fail and the function can report it.',
 ['inputs'],'all integer operands; all byte-string operands within the length bound (hashes uninterpreted)',
 'Tests exercise a few operations on single values.',
 [A+'opcode.rs',A+'integer.rs',A+'byte_array.rs',B+'hash.rs'],[('func::OP_*',A+'opcode.rs')],['func::OP_*']))
L.append(P('C27','Signatures verify exactly under the matching key and message',
 'A signature made with a secret key verifies under the corresponding public key for the same message and format, and verification with any other message, key or tampered signature fails.',
 ['inputs'],'all keys, messages and signatures','Tests sign a few fixed messages.',
 ['bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs',B+'ecc.rs'],[('Ecc implementations','bitcoin-cash-ecc/src/c_ecc.rs')],['Ecc::sign','Ecc::verify']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
