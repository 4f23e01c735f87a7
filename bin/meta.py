"""Properties, their scope and what is assumed: properties.jsonl and MANIFEST.json are generated from here (bin/gen)."""
import os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED=['clang 18 front end and the LLVM passes sroa/instsimplify/simplifycfg/loop-simplify/lcssa (C to IR)',
 'engine/ir.py, ex.py, loops.py, terms.py (the verification-condition generator and the normal form; terms.py is differentially self-tested)',
 'z3 (python3-vt z3-solver)','spec/*.py (specifications written from the standards; cross-checked against independent implementations natively)']
COMMON_ASSUMPTIONS=['target: LP64 little endian, the configuration the repository builds here; gcc compiles what clang\'s IR says',
 'distinct objects passed by the caller do not overlap unless the case says so; pointers are valid for the stated sizes',
 'a single call processes less than 2^48 bytes, and a message less than 2^59 bytes','stack allocation does not fail']
NATIVE={}
P=[]
def prop(id,title,statement,over,text,why,files,mech,assumptions=(),bounded='',note='',native=None):
    P.append(dict(id=id,title=title,statement=statement,over=over.split(','),text=text,why=why,files=files.split(),mech=mech,assumptions=list(assumptions),bounded=bounded,note=note,
        level='proof' if os.path.exists(os.path.join(ROOT,'props','p_%s.py'%id)) else 'exploration'))
    if native: NATIVE[id]=native
prop('M01','Big integer addition, subtraction, comparison and copy are exact',
 'For all signed integers of any size, addition, subtraction, absolute value, negation, comparison, copy, swap and equality tests return the mathematically exact result, also when result and operands are the same object. Results are normalized: no leading zero digits, zero is never negative. Inputs that are not outputs are left unchanged.',
 'inputs','every pair of integers of any number of digits and sign, every aliasing of the operands','tests use a few dozen fixed operands; carries across many digits, aliasing and sign combinations are not enumerated',
 'src/mpi/mpi_add.c src/mpi/mpi_add_abs.c src/mpi/mpi_sub.c src/mpi/mpi_sub_abs.c src/mpi/mpi_cmp.c src/mpi/mpi_cmp_abs.c src/mpi/mpi_core.c src/mpi/mpi_abs.c src/mpi/mpi_pvt.h',
 [('digit loops with carry/borrow','src/mpi/mpi_add_abs.c, src/mpi/mpi_sub_abs.c'),('sign dispatch','src/mpi/mpi_add.c, src/mpi/mpi_sub.c'),('normalization','src/mpi/mpi_pvt.h')],
 ['a number has fewer than 2^32 digits','cry_mpi_grow is used through its contract (room for the digits, digits kept, or failure and nothing changed)','that the sequences of digits denote the sums and differences is an induction over digits whose steps are discharged as integer lemmas'],bounded='swap and the zero/one/parity tests (native oracle)')
prop('M02','Big integer multiplication and squaring are exact for every size and algorithm',
 'For all signed integers of any size, multiplication (including by a single digit) and squaring return the exact product with the right sign and no leading zero digits. This holds at every size at which the library switches between its internal algorithms, for operands of very different sizes, and when the result is the same object as an operand.',
 'inputs','every pair of integers; every size class (schoolbook, column-wise, Karatsuba, Toom-Cook) and aliasing','tests multiply a few fixed numbers; the large-operand algorithms split into cases by size and by digit values that are rarely hit',
 'src/mpi/mpi_mul.c src/mpi/mpi_mul_comba.c src/mpi/mpi_mul_baseline.c src/mpi/mpi_mul_karatsuba.c src/mpi/mpi_mul_toom3.c src/mpi/mpi_mul_abs.c src/mpi/mpi_sqr.c src/mpi/mpi_sqr_baseline.c src/mpi/mpi_sqr_karatsuba.c src/mpi/mpi_sqr_comba.c',
 [('dispatch by size','src/mpi/mpi_mul.c, src/mpi/mpi_sqr.c'),('column sums with carries','src/mpi/mpi_mul_comba.c'),('divide and conquer','src/mpi/mpi_mul_karatsuba.c, src/mpi/mpi_mul_toom3.c')])
prop('M03','Big integer division yields the exact quotient and remainder',
 'For every dividend and non-zero divisor of any size, division returns the quotient rounded down (floor) and as remainder the absolute value of dividend minus quotient times divisor, which for a positive divisor lies between 0 and divisor minus 1; modulo agrees with it. This holds whichever result objects are requested or coincide with the operands. A zero divisor is reported as an error and changes nothing.',
 'inputs','every dividend/divisor pair, every choice of requested results and aliasing','the quotient-digit estimate is corrected only for rare digit patterns (probability about 2^-63 for random operands)',
 'src/mpi/mpi_div.c src/mpi/mpi_div_abs.c',
 [('normalized long division with quotient estimation and correction','src/mpi/mpi_div_abs.c'),('sign adjustment','src/mpi/mpi_div.c')])
prop('M04','Big integer shifts and bit counting are exact',
 'Shifting left by n bits multiplies by 2^n and shifting right by n bits divides the magnitude by 2^n discarding the fraction, for every n (including multiples of the digit size and n beyond the size of the number) and every integer. The reported number of bits is the exact length of the magnitude in binary, and individual bit and digit shifts agree.',
 'inputs','every integer and every shift amount','tests shift a few values; digit-boundary amounts, full shifts-out and aliasing are cases of the quantifier',
 'src/mpi/mpi_shl.c src/mpi/mpi_shr.c src/mpi/mpi_core.c',
 [('digit move plus bit loop','src/mpi/mpi_shl.c, src/mpi/mpi_shr.c')],
 ['a number has fewer than 2^32 digits, a shift amount is below 2^50','cry_mpi_grow and cry_mpi_copy are used through their contracts (copy is proved in M01)','that the sequences of digits denote product and quotient by 2^n is an induction over digits whose steps are discharged as lemmas'])
prop('M05','Big integer conversions to and from bytes, machine integers and text',
 'Loading an integer from big-endian bytes, a machine integer or a text in any supported radix gives exactly the value denoted, and storing or printing it denotes exactly that value again; so storing then loading returns the same integer. Malformed text is rejected. Storing to bytes never writes outside the buffer of the stated length: if the value does not fit an error is returned.',
 'inputs','every byte string, machine integer, text and radix, every integer and every buffer length','tests convert a few fixed values; leading zeros, exact-fit buffers, extreme machine integers and radices are corner cases',
 'src/mpi/mpi_bin.c src/mpi/mpi_str.c src/mpi/mpi_core.c',
 [('byte packing loops','src/mpi/mpi_bin.c'),('radix loops','src/mpi/mpi_str.c')],
 ['a number has fewer than 2^32 digits, a byte string fewer than 2^41 bytes','cry_mpi_grow (proved in S01) and cry_mpi_count_bits (proved in M04) are used through their contracts'],bounded='conversion from and to text (native oracle)')
prop('M06','Number-theoretic functions return the mathematically defined results',
 'For all arguments in their domain: gcd and lcm are the greatest common divisor and least common multiple; a modular inverse multiplied by the argument is 1 modulo the modulus and an error is returned exactly when no inverse exists; power and modular power equal repeated multiplication (exponent 0 included); the integer square root is the floor of the real one. A composite number that trial division can reveal is never called prime and a prime is never called composite.',
 'inputs','every argument tuple in the domain, including zero, one and negative values where allowed','tests evaluate a few values; identities must hold for all integers',
 'src/mpi/mpi_gcd.c src/mpi/mpi_lcm.c src/mpi/mpi_inv.c src/mpi/mpi_exp.c src/mpi/mpi_mod_exp.c src/mpi/mpi_sqrt.c src/mpi/mpi_prime.c',
 [('Euclid loops','src/mpi/mpi_gcd.c, src/mpi/mpi_inv.c'),('square and multiply','src/mpi/mpi_exp.c, src/mpi/mpi_mod_exp.c'),('Newton iteration','src/mpi/mpi_sqrt.c')],['addition, multiplication, division, shifts and comparison are used through their contracts (M01..M05)','the static bit-counting helper of mpi_gcd.c is used through its contract (number of trailing zero bits)'],bounded='primality tests, prime generation and the trailing-zero helper of gcd (native oracle)')
prop('S01','An allocation failure is reported and never corrupts or leaks',
 'If any memory allocation inside a big-integer, elliptic-curve or public-key operation fails, the operation returns an error (never success with a wrong result, never an accepted signature), does not crash, does not leak memory and leaves every number object valid and releasable. When no allocation fails, all memory taken is released by the corresponding clear.',
 'fault_sequences,inputs','every operation, every position at which an allocation fails','tests never make an allocation fail',
 'src/mpi src/ecp src/mpi/mpi_core.c src/crypt/dsa.c src/crypt/ecdsa.c src/crypt/elgamal.c src/crypt/rsa.c src/crypt/dh.c src/crypt/ecdh.c',
 [('error propagation and cleanup chains','all mpi, ecp and public key functions'),('grow before write','src/mpi/mpi_core.c')],
 ['the variadic cry_mpi_init_list, cry_mpi_clear_list, cry_ecp_init_list and cry_ecp_clear_list are used through their contracts (all or nothing; released)'],bounded='multiplication kernels, division, text conversion, prime search, scalar multiplication, RSA and key generation (native oracle that makes the n-th allocation fail)')
prop('A01','AES encrypts and decrypts as FIPS-197 for all keys and data',
 'For every 128, 192 or 256 bit key and every sequence of whole blocks, in place or into a separate buffer, encryption and decryption produce exactly the blocks FIPS-197 defines, and decryption inverts encryption. This holds for any sequence of encryptions, decryptions and re-keyings on one context. Nothing outside the output buffer and the context is written.',
 'inputs,histories','every key of each size, every block sequence, every order of calls on a context','tests use published vectors: a wrong table entry or key-schedule corner survives them',
 'src/crypt/aes.c',[('key expansion and round tables','src/crypt/aes.c')],
 ['data pointers are 1-byte aligned objects (no alignment assumption is needed by the IR)'])
prop('A02','DES and triple DES follow FIPS-46-3 for all keys and data',
 'For every 8 byte (DES), 16 byte and 24 byte (triple DES, encrypt-decrypt-encrypt) key and every sequence of whole blocks, in place or into a separate buffer, encryption and decryption produce exactly what FIPS-46-3 defines, and decryption inverts encryption. Nothing outside the output buffer and the context is written.',
 'inputs,histories','every key of each size, every block sequence','tests use a few vectors: most S-box and permutation entries are not exercised',
 'src/crypt/des.c',[('key schedule, S-box tables, initial and final permutation','src/crypt/des.c')])
prop('B01','CBC mode is exact, chained across calls and invertible',
 'With any block cipher of 8 or 16 byte blocks, CBC encryption and decryption of any number of whole blocks equal the definition (each block chained with the previous ciphertext), in place or into a separate buffer. Splitting a message over several calls at block boundaries gives the same result as one call, and decryption inverts encryption. Only the output buffer and the context are written.',
 'inputs,histories','every cipher, key, initialization vector, length, split and buffer arrangement','tests use AES with one or two lengths; the in-place buffered path has its own chunking',
 'src/crypt/cbc.c',[('chaining value kept in the context','src/crypt/cbc.c'),('chunked in-place decryption','src/crypt/cbc.c')],
 ['the block cipher is an arbitrary function of the block (uninterpreted), decryption its inverse'])
prop('B02','CFB and CFB8 modes are exact, chained across calls and invertible',
 'With any block cipher of 8 or 16 byte blocks, cipher feedback with full-block and with 8-bit segments equals the definition, in place or into a separate buffer. Splitting a message over several calls (at block boundaries for the full-block mode, anywhere for the 8-bit mode) gives the same result as one call, and decryption inverts encryption. Only the output buffer and the context are written.',
 'inputs,histories','every cipher, key, initialization vector, length, split and buffer arrangement','tests use one cipher and few lengths, mostly one call',
 'src/crypt/cfb.c',[('feedback register kept in the context','src/crypt/cfb.c')],['the block cipher is an arbitrary function of the block (uninterpreted)'])
prop('B03','CTR mode is exact, chained across calls and invertible',
 'With any block cipher of 8 or 16 byte blocks, counter mode xors the data with the encryption of successive big-endian counter values starting at the initialization vector (wrapping around at the top), in place or into a separate buffer. Splitting a message over several calls at block boundaries gives the same result as one call, and the operation is its own inverse. Only the output buffer and the context are written.',
 'inputs,histories','every cipher, key, initial counter, length, split and buffer arrangement','counter carries over several bytes and wrap-around are not reached by the tests',
 'src/crypt/ctr.c src/misc.h',[('big-endian counter increment','src/misc.h, src/crypt/ctr.c')],['the block cipher is an arbitrary function of the block (uninterpreted)'])
prop('B04','GCM follows SP 800-38D for all inputs and splits',
 'With AES, Galois/counter mode produces exactly the ciphertext, plaintext and tag of NIST SP 800-38D for every key, every initialization vector length, every length of additional data and message, in place or into a separate buffer, and decryption inverts encryption. Supplying the additional data and the message over several calls in block multiples gives the same result as one call each.',
 'inputs,histories','every key, nonce length, additional data, message, split','published vectors only: rare field-multiplication tables entries, long lengths and counter carries are not exercised',
 'src/crypt/gcm.c',[('hash over GF(2^128)','src/crypt/gcm.c'),('counter and length block','src/crypt/gcm.c')])
prop('H01','Digests equal the standards for every message and every split into updates',
 'MD5, SHA-1, SHA-256, SHA-384 and SHA-512 return exactly the digest the standards define for every message of every length. The digest depends only on the concatenation of the data supplied, not on how it was split into update calls.',
 'inputs,histories','every message length and content, every sequence of update calls','tests hash a few strings; padding boundaries, counter carries and buffer-fill paths depend on length and split',
 'src/hash/md5.c src/hash/sha1.c src/hash/sha256.c src/hash/sha512.c',[('compression function','src/hash/*.c'),('partial block buffer and length counter','src/hash/*.c')])
prop('H02','HMAC equals RFC 2104 for every key and message',
 'With MD5, SHA-1 or SHA-256, the authentication code equals RFC 2104 for every key length (shorter than, equal to and longer than a block) and every message, however the message is split into updates.',
 'inputs,histories','every key length and content, every message, every split','tests use a few keys',
 'src/crypt/hmac.c',[('key padding, inner and outer hash','src/crypt/hmac.c')],['hash functions are used through their contract (H01)'])
prop('H03','CMAC equals SP 800-38B for every key and message',
 'With a block cipher of 16 byte blocks, the authentication code equals NIST SP 800-38B for every message of every length including the empty one, however the message is split into updates.',
 'inputs,histories','every key, every message length, every split','tests use four lengths of one published message',
 'src/crypt/cmac.c',[('subkeys, last block handling','src/crypt/cmac.c')],['the block cipher is an arbitrary function of the block (uninterpreted)'])
prop('K01','CRC values equal the polynomial definition for every input and split',
 'Each CRC-16 and CRC-32 variant offered returns for every byte string the remainder its published polynomial, initial value, reflection and final xor define. Computing it incrementally over any split of the data gives the same value as in one call.',
 'inputs,histories','every byte string and split, every variant','a wrong entry among the 256 of a table is only seen by inputs that use it',
 'src/crc include/cry/crc.h',[('lookup tables and update step','src/crc')])
prop('E01','Base64 encoding and decoding are exact and inverse',
 'Encoding any byte string yields its RFC 4648 base64 text with padding, and decoding that text returns the byte string and its length. Decoding rejects a text containing a character outside the alphabet or whose length is not a multiple of four. Neither function reads or writes outside the buffers of the documented sizes.',
 'inputs','every byte string of every length, every text','tests encode a few strings',
 'src/crypt/base64.c',[('3 to 4 byte loops with tail handling','src/crypt/base64.c')])
prop('X01','Block xor is exact for every length and every overlap of the buffers',
 'Xoring a buffer into another, or two buffers into a third, yields the bytewise exclusive or of the original contents for every length and every way in which the buffers coincide, overlap or are disjoint. No byte outside the destination is modified and none outside the operands is read.',
 'inputs','every length, every relative position of the three buffers','the copy direction and the rotation depend on the relative positions and the length; tests take a few',
 'src/crypt/memxor.c src/crypt/memxor.h',[('case distinction on the overlap','src/crypt/memxor.c')],['when the one arrangement that needs a temporary buffer cannot get the memory, nothing is done (the function has no error return)'])
prop('C01','Affine and Hill ciphers are exact and invertible',
 'For every valid key, the affine cipher maps each byte x to a*x+b modulo 256 (the key pairs being used cyclically) and the Hill cipher multiplies each group of bytes by the key matrix modulo 256; decryption with the same key returns the original data. Keys without an inverse are rejected when the library has to compute the inverse.',
 'inputs','every key and every data of a valid length','tests use one key each',
 'src/crypt/affine.c src/crypt/hill.c',[('modular inverse of bytes and matrix','src/crypt/affine.c, src/crypt/hill.c')])
prop('R01','ARC4 produces the standard key stream for every key and split',
 'For every key of 1 to 256 bytes the data is xored with the ARC4 key stream; processing the data in several calls of any sizes gives the same result as one call, and applying it twice with the same key restores the data.',
 'inputs,histories','every key length, every data length and split','tests use one key',
 'src/crypt/arc4.c',[('key scheduling and generator','src/crypt/arc4.c')])
prop('T01','Trivium produces the standard key stream for every key, IV and length',
 'For every 80 bit key and initialization vector the data is xored with the Trivium key stream; processing it in several calls of sizes multiple of four gives the same result as one call, and applying it twice restores the data.',
 'inputs,histories','every key, every initialization vector, every length and split','tests use published vectors of one length',
 'src/crypt/trivium.c',[('word-parallel shift register','src/crypt/trivium.c')])
prop('W01','AES key wrap follows RFC 3394 and detects every corruption it can',
 'Wrapping any key data of a whole number of 8 byte units yields the RFC 3394 result, and unwrapping returns the original data. Unwrapping succeeds exactly when the recovered integrity value is the expected one, otherwise an error is returned.',
 'inputs','every key encryption key, every data length and content, every corrupted input','tests use published vectors; step counters beyond one byte and rejections are not exercised',
 'src/utils/aes_wrap.c',[('wrapping rounds and integrity check','src/utils/aes_wrap.c')],['AES is used through its contract (A01)'])
prop('G01','Pseudo-random generators are deterministic per seed and stay in range',
 'After seeding, the block-cipher generator yields the AES encryptions of successive counter values (key and first counter taken from the seed) however the requests are split, and the shift-register generator yields its published recurrence; each request fills exactly the bytes asked for. A random integer requested with a number of bits has exactly that many bits, and one requested below a positive bound is non-negative and below it.',
 'inputs,histories','every seed, every requested size','tests only look at a handful of outputs',
 'src/prng src/mpi/mpi_rand.c',[('counter and residual bytes','src/prng/prng_aes.c'),('combined shift registers','src/prng/prng_lfsr113.c'),('masking of the top byte','src/mpi/mpi_rand.c')])
prop('P01','Elliptic curve point arithmetic implements the group law',
 'On every curve offered, addition, doubling and multiplication by a scalar of any points yield the point the group law defines, including the neutral element, equal and opposite points and points of order two, and also when result and operand coincide. The curve parameters are the published ones and multiplication by the group order gives the neutral element.',
 'inputs','every curve, every pair of points and every scalar','tests multiply a few points; the exceptional cases of the formulas are not hit by random points',
 'src/ecp',[('affine addition and doubling formulas','src/ecp/ecp_add.c, src/ecp/ecp_dbl.c'),('windowed multiplication','src/ecp/ecp_mul.c')],['big integer functions are used through their contracts (M01..M06)'],bounded='scalar multiplication and the table of curve parameters (native oracle)')
prop('D01','DSA verification accepts exactly the valid signatures',
 'A signature produced with the private key verifies with the public key for every message digest. Verification accepts a pair exactly when both values lie strictly between 0 and the subgroup order and the verification equation of FIPS 186 holds; malformed, zero, negative or out of range values are rejected.',
 'inputs','every key, digest, and signature pair valid or not','tests verify their own signatures; forged and boundary values are not tried',
 'src/crypt/dsa.c',[('range checks and verification equation','src/crypt/dsa.c')],['big integer functions are used through their contracts (M01..M06)'])
prop('D02','ECDSA verification accepts exactly the valid signatures',
 'A signature produced with the private key verifies with the public key for every message digest on every curve. Verification accepts a pair exactly when both values lie strictly between 0 and the group order and the verification equation holds; malformed, zero, negative or out of range values and the case of a neutral result point are rejected.',
 'inputs','every curve, key, digest, and signature pair valid or not','tests verify their own signatures; forged and boundary values are not tried',
 'src/crypt/ecdsa.c',[('range checks and verification equation','src/crypt/ecdsa.c')],['big integer and curve functions are used through their contracts (M01..M06, P01)'])
prop('D03','ElGamal verification accepts exactly the valid signatures',
 'A signature produced with the private key verifies with the public key for every message that is not longer than the modulus. Verification accepts a pair (r, s) for a message exactly when the message is not longer in bytes than the modulus p, 0 < r < p, s is not negative, and g^m is congruent to y^r * r^s modulo p, where m is the message read as a big-endian integer; every other pair is rejected. The byte encoding of a signature is r then s, each padded to the size of the modulus.',
 'inputs','every key, message and signature pair valid or not','tests run one round trip',
 'src/crypt/elgamal.c',[('signature equations','src/crypt/elgamal.c')],['big integer functions are used through their contracts (M01..M06)'])
prop('D04','RSA operations invert each other and reject malformed padding',
 'For every valid key and every message within the size limits, decryption returns exactly the encrypted message and a signature made with the private key verifies for exactly the signed message. Padded blocks whose structure is malformed are rejected, and no output larger than the allocated result is produced.',
 'inputs','every key, message length and content, every ciphertext','tests run a few round trips with one key',
 'src/crypt/rsa.c',[('padding and modular power','src/crypt/rsa.c')],['big integer functions are used through their contracts (M01..M06)'])
prop('D05','Diffie-Hellman parties derive the same secret',
 'For all parameters and private values, finite-field and elliptic-curve key agreement send the public value the private value determines, and both parties obtain the same shared secret, equal to the group element with the product of the private values as exponent.',
 'inputs','every parameter set and pair of private values','tests run one exchange',
 'src/crypt/dh.c src/crypt/ecdh.c',[('modular power or scalar multiplication of the peer value','src/crypt/dh.c, src/crypt/ecdh.c')],['big integer and curve functions are used through their contracts (M01..M06, P01)'])
prop('Z01','Clearing a context wipes the key material it holds',
 'After the clear operation of a symmetric cipher, mode, authentication-code or hash context, no byte of the context object holds key or state material: it is entirely zero, including the context of the cipher a mode drives. Memory the context owned is released.',
 'inputs,histories','every context type, whatever was done with it before','tests do not look at cleared memory',
 'src/crypt src/hash src/utils',[('memory wipe in the clear functions','src/crypt/*.c, src/hash/*.c')])
PROPS={p['id']:p for p in P}
