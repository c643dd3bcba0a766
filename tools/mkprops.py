#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
J = "java/io/nayuki/bitcoin/crypto/"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (len(title), title)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "C++: concurrent callers get the solo answers, with no data race",
     "Any number of threads may call any C++ operations at the same time (hashing, HMAC, key and address import/export, key derivation, "
     "signing, verification, big-integer, field and curve arithmetic) as long as no object is being written by one thread while another "
     "uses it; read-only sharing of the same input objects, and of the library's own constants, is allowed. Under every interleaving, stall "
     "or delay of the threads each call returns exactly what it returns when run alone, every call finishes once it is scheduled, and no two "
     "threads make unsynchronised conflicting accesses to the same memory.",
     ["schedules", "inputs", "histories"],
     "for every set of caller threads and operations, and every preemption/stall schedule down to single memory accesses (single instructions inside the x86-64 assembly routines)",
     "The existing tests are single-threaded: no interleaving at all is exercised, so a static scratch buffer, a lazily filled table or a memo cache would pass them all.",
     ["cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp",
      "cpp/Ecdsa.cpp", "cpp/ExtendedPrivateKey.cpp", "cpp/Base58Check.cpp", "cpp/AsmX8664.s"],
     [("all working state is in locals and caller objects; globals are constants", "every function in cpp/*.cpp"),
      ("assembly works in registers, its own stack frame and the output argument", "cpp/AsmX8664.s")],
     [("CurvePoint::G, ZERO, ORDER, FI_ONE, Uint256::ZERO", "dynamically initialised shared constants", "cpp/CurvePoint.cpp, cpp/Uint256.cpp")],
     ["return values and output arguments of each call", "every instrumented memory access"])

prop("C02", "Java: concurrent callers get the same answers as solo callers",
     "Any number of threads may call any static functions of the Java library at the same time, each with its own output arrays, and may share "
     "input arrays and hash objects that nobody modifies. Under every interleaving or stall of the threads, including their first use of the library, each call returns exactly the value "
     "(or exception kind) it returns when run alone, and every call finishes once it is scheduled. A thread that is interrupted before or during a call completes it with the same answer and is still marked as interrupted afterwards.",
     ["schedules", "inputs", "histories"],
     "for every set of caller threads and operations and every preemption schedule at the granularity of field and array accesses",
     "The JUnit tests are single-threaded and run each function alone; shared mutable statics would pass them.",
     [J + f for f in ("Sha256.java", "Sha512.java", "Ripemd160.java", "Keccak256.java", "Sha256Hash.java", "Base58Check.java", "Bech32.java",
                      "Int256Math.java", "CurvePointMath.java", "Ecdsa.java", "Utils.java")],
     [("scratch space is allocated per call; static arrays are never written after class initialisation", J + "Ecdsa.java, CurvePointMath.java, Sha256.java"),
      ("immutable Sha256Hash value object", J + "Sha256Hash.java")],
     [], ["return values, output arrays and exceptions of each call"])

prop("C03", "C++ streaming hashers: fragmentation, reuse and restarts never change the digest",
     "A streaming SHA-256 or SHA-512 hasher gives exactly the standard digest of the concatenation of the bytes appended to it, however the bytes were cut "
     "into appends (including empty ones), however many other streams or library calls were interleaved, and whether or not the caller reuses or unmaps a buffer as soon as the append returned. "
     "A copy of a hasher is an independent checkpoint: continuing either one, or restarting from the copy after losing the original, gives the digest of that hasher's own history. "
     "This holds for message lengths up to and beyond 2^32 bytes.",
     ["histories", "fault_sequences", "inputs"],
     "for every sequence of open/append/copy/drop/restore/finish over several streams, every chunking, and message lengths past 512 MiB and 4 GiB",
     "Tests append a handful of fixed splits to one SHA-256 hasher of a short message; SHA-512 streaming, hasher copies, interleaved streams and long messages are never run.",
     ["cpp/Sha256.cpp", "cpp/Sha256.hpp", "cpp/Sha512.cpp", "cpp/Sha512.hpp"],
     [("byte buffer plus fill level plus total length", "Sha256::append, Sha256::getHash(), Sha512::append, Sha512::getHash")],
     [("state, buffer, bufferLen, length", "chaining value, partial block, its fill level and bytes so far", "cpp/Sha256.hpp, cpp/Sha512.hpp")],
     ["finished digests"])

prop("C04", "C++: importing a damaged or forged address/key string never yields a wrong value",
     "Importing a Base58Check string (address, WIF private key, extended private key) succeeds exactly when the string is a canonical encoding of a payload of the documented "
     "length and format with a correct 4-byte check value (compressed marker 01, Bitcoin header, zero pad byte and a key in [1, order) for extended keys; the WIF key value itself is not range-checked), and then delivers exactly that payload. "
     "Otherwise it returns false and leaves every output unchanged. This holds for any NUL-terminated string a lossy or hostile channel can deliver, "
     "and no byte outside the string and the outputs is touched; optional outputs may be null.",
     ["inputs", "fault_sequences", "histories"],
     "for every string obtained from valid exports by substitution, loss, duplication, reordering, truncation, splicing, bit rot, or built by a writer that can compute check values",
     "The tests try a few dozen fixed strings; the space of corruptions and of validly check-summed malformed payloads is unbounded.",
     ["cpp/Base58Check.cpp", "cpp/Base58Check.hpp", "cpp/Uint256.cpp", "cpp/ExtendedPrivateKey.cpp"],
     [("length pre-check, overflow checks, leading-zero check, double-SHA-256 check", "Base58Check::base58CheckToBytes and callers"),
      ("format checks before assigning outputs", "Base58Check::extendedPrivateKeyFromBase58Check, privateKeyFromBase58Check")],
     [], ["return value and outputs of the import functions"])

prop("C05", "C++: keys and addresses on failing storage come back exactly or are refused",
     "Exporting any address hash, private key or extended private key writes a NUL-terminated string of the documented length within the documented buffer size, and it is the standard Base58Check text of "
     "the documented payload. Importing it later gives back exactly the exported values, including version byte, compression flag, depth, index, chain code, parent fingerprint and recomputed public key. If the storage tore, lost, "
     "misdirected or corrupted the write, the import yields a value that was really exported to that store or reports failure.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "for every sequence of exports, overwrites, crashes at any byte of a write, bit rot, misdirected or lost writes, and re-imports",
     "Tests export and import a few fixed vectors; values with many leading zeros, maximum-size values, and crash points in the middle of a record are not covered.",
     ["cpp/Base58Check.cpp", "cpp/Base58Check.hpp"],
     [("fixed-size payload arrays and repeated division by 58", "Base58Check::bytesToBase58Check"), ("4-byte double-SHA-256 check value", "Base58Check::bytesToBase58Check")],
     [], ["stored text", "re-imported values"])

prop("C06", "Java Base58Check: corruption is refused cleanly, never mis-decoded",
     "Encoding any byte array gives its standard Base58Check text, and decoding that text gives back the array. Decoding any other string delivered by a lossy or hostile channel succeeds exactly when it is the canonical text of some payload "
     "with a correct check value, returning that payload, and otherwise fails with IllegalArgumentException and no other kind of failure.",
     ["inputs", "fault_sequences"],
     "for every payload length and every corruption, truncation, splice or forged string",
     "Tests corrupt one character of random strings and try fixed vectors; short strings, forged check values and arbitrary Unicode are not explored.",
     [J + "Base58Check.java"],
     [("alphabet check, leading-zero rule, 4-byte double-SHA-256 check", J + "Base58Check.java base58ToBytes/base58ToRawBytes")],
     [], ["returned arrays/strings and exceptions"])

prop("C07", "Java Bech32/segwit: strict canonical codec, and small damage is always detected",
     "Encoding valid arguments gives the BIP-173 text (lower case, at most 90 characters) and refuses invalid arguments with IllegalArgumentException; decoding accepts exactly the strings BIP-173 and the documentation allow "
     "(all lower or all upper case, valid prefix, valid check value, and for segwit version 0-16, program of 2-40 bytes, at most 4 zero padding bits) and returns what was encoded. "
     "Any string damaged in up to four characters is refused, and every refusal is an IllegalArgumentException. Two different accepted texts never decode to the same segwit output, except for letter case.",
     ["inputs", "fault_sequences"],
     "for every prefix, data part and program, and every channel damage or forged string",
     "Tests use fixed BIP-173 vectors; error patterns, mixed case in every position, forged padding and extreme lengths are not explored.",
     [J + "Bech32.java"],
     [("case normalisation, separator search, polymod check, bit repacking", J + "Bech32.java")],
     [], ["returned values and exceptions"])

prop("C08", "HD key derivation: same tree after any crash, and rare bad hashes fail cleanly",
     "Deriving child keys gives exactly the BIP-32 private child (key, public key, chain code, depth, index, parent fingerprint) for every parent and index, and does not modify the parent. The result is the same "
     "whether the parent was kept in memory or was exported, lost in a crash and re-imported any number of times. When the derivation hash gives an unusable value (left half not below the curve order, or a zero child key), or the parent is already at depth 255, "
     "the result is the all-zero invalid key, never an out-of-range or wrapped one, and another derivation afterwards still succeeds.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "for every derivation tree walk, every placement of persist/crash/restore steps, and every output the keyed hash could produce (including the ones of probability 2^-127)",
     "Tests check a few fixed chains; hash outputs at the boundaries never occur by chance, and persistence in the middle of a walk is not tested.",
     ["cpp/ExtendedPrivateKey.cpp", "cpp/Base58Check.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/CurvePoint.cpp"],
     [("range check of the left half, modular addition, zero check", "ExtendedPrivateKey::getChildKey")],
     [], ["fields of the derived key, exported text"],
     "none: the keyed hash is replaced at link time")

prop("C09", "ECDSA signing: exact low-S signature or a clean refusal, for any nonce source",
     "Signing with any private key in [1, order), any 32-byte message hash and any 256-bit nonce value returns true exactly when the nonce is in [1, order) and both signature numbers are nonzero, and then outputs exactly r = (nonce*G).x mod order and the smaller of s and order - s; "
     "otherwise it returns false and leaves the outputs untouched. The deterministic-nonce form does the same with nonce = HMAC-SHA-256(key bytes, message hash). A caller that retries with fresh nonces after refusals always obtains a signature that verifies. "
     "This holds for the C++, the C++ with assembly, and the Java implementation.",
     ["inputs", "fault_sequences", "histories"],
     "for every key, hash (including hashes not below the order) and every value a failing, stuck, biased or boundary-hitting nonce source or keyed hash can produce",
     "The tests sign fixed and random vectors with good nonces; refusals, boundary s values and hashes at or above the order with carry never occur by chance.",
     ["cpp/Ecdsa.cpp", J + "Ecdsa.java", "cpp/CurvePoint.cpp", J + "CurvePointMath.java", "cpp/Uint256.cpp", J + "Int256Math.java"],
     [("nonce range check, zero checks, conditional negation, single assignment of the outputs", "Ecdsa::sign, Ecdsa.sign")],
     [], ["return value and outputs"],
     "none: the keyed hash is replaced at link time / class load time")

prop("C10", "ECDSA verification: all implementations agree with the standard on any input",
     "For any public key point, message hash, r and s that can reach a node, verification returns true exactly when the public key is a normalised point on the curve other than infinity, r and s are in [1, order), and the ECDSA equation holds (both s and order - s are accepted). "
     "The C++, C++ with assembly, and Java implementations give the same verdict for the same delivered bytes, whatever was lost, duplicated, reordered, corrupted, replayed or forged in transit, and once faults stop every honest signature is accepted everywhere.",
     ["inputs", "fault_sequences", "histories"],
     "for every honest or crafted (key, hash, r, s), including those whose intermediate points are equal, opposite or at infinity, or whose x coordinate exceeds the order, and every delivery order and fault sequence",
     "Tests verify fixed vectors in one implementation at a time; crafted signatures reaching the special point cases and disagreements between implementations are not searched for.",
     ["cpp/Ecdsa.cpp", "cpp/CurvePoint.cpp", "cpp/FieldInt.cpp", "cpp/AsmX8664.s", J + "Ecdsa.java", J + "CurvePointMath.java", J + "Int256Math.java"],
     [("range and curve checks, double-scalar multiplication, comparison mod order", "Ecdsa::verify, Ecdsa.verify")],
     [], ["verdict of each node for each delivered message"])

prop("C11", "C++: timing and memory-access pattern do not depend on secrets",
     "For operations documented as constant-time (big-integer, field and curve arithmetic, conversions and comparisons, public key computation, successful signing, hash construction and equality), the sequence of executed code locations and of accessed memory locations is the same for all values of the "
     "secret inputs. So an attacker sharing the machine, who may preempt the call at any points and then look at the clock, the code position and the touched cache lines, observes the same thing whatever the secrets are.",
     ["schedules", "inputs"],
     "for every pair of secret inputs (private keys, nonces, message hashes, operands, enable flags) with equal public inputs, and every schedule of attacker observations",
     "Functional tests cannot see control flow or addresses at all; a secret-dependent branch or table lookup returns the right answer.",
     ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Sha256Hash.cpp", "cpp/AsmX8664.s"],
     [("mask-based selection, fixed iteration counts, full-table scans", "Uint256::replace/add/subtract/reciprocal, CurvePoint::multiply, Ecdsa::multiplyModOrder")],
     [], ["trace of basic blocks and memory addresses"])

prop("C12", "C++: start-up works for every order of static initialisation",
     "Whatever order the program's translation units run their static initialisers in, including other static initialisers that parse big integers, field elements or hash values and compute hashes in between, every library constant ends up with its "
     "documented value and every operation called after start-up gives its normal result.",
     ["schedules", "configurations"],
     "for every order of the library's own and the client's static initialisers",
     "The tests link in one fixed order, so an initialiser that reads another file's constant works or fails depending on link order only.",
     ["cpp/CurvePoint.cpp", "cpp/FieldInt.cpp", "cpp/Uint256.cpp", "cpp/CurvePoint.hpp"],
     [("each class's constants are built only from literals or from constants of the same file", "cpp/CurvePoint.cpp static initialisers, cpp/CurvePoint.hpp comment")],
     [("CurvePoint::FI_ZERO, FI_ONE, A, B, ORDER, G, ZERO; Uint256::ZERO, ONE; FieldInt::MODULUS", "dynamically initialised constants", "cpp/CurvePoint.cpp, cpp/Uint256.cpp, cpp/FieldInt.cpp")],
     ["constants and results after start-up"])

prop("C13", "Java: a call that runs out of memory or stack leaves no trace on later calls",
     "Once the classes it uses are initialised (an error inside a class initialiser disables a class for good by Java's own rules), if memory runs out at any allocation inside a library call, or stack space at any call inside it, the call ends with that OutOfMemoryError or StackOverflowError (or completes with the right answer), the caller's input arrays are unmodified, and every later call - same or different operation, same or another thread - gives exactly its normal result. "
     "The same holds for a call that was rejected with an exception because of invalid arguments.",
     ["crash_points", "fault_sequences", "histories"],
     "for every operation, every allocation and nested call inside it, and every later history of calls",
     "Tests never make an allocation or a nested call fail and never look at the state left behind by a failed call.",
     [J + f for f in ("Sha256.java", "Sha512.java", "Ripemd160.java", "Keccak256.java", "Sha256Hash.java", "Base58Check.java", "Bech32.java",
                      "Int256Math.java", "CurvePointMath.java", "Ecdsa.java", "Utils.java")],
     [("no static mutable state, no partially updated shared objects", J + "*.java")],
     [], ["results of later calls", "input arrays"])

prop("C14", "Caller memory: inputs unmodified, outputs in bounds, nothing retained",
     "A call reads and writes only the documented extents of the caller's buffers and objects, never modifies an input, and keeps no reference to caller memory after it returns; returned arrays are fresh, and hash objects never change once made. So a caller may "
     "overwrite, unmap or reuse any buffer right after a call, or modify a returned array, without affecting any other result or hash object. This holds in C++ and in Java. "
     "A C++ result depends on the arguments' values alone: not on their addresses, nor on what unrelated memory, the stack or the unspecified upper half of a 32-bit argument's register happens to hold.",
     ["histories", "fault_sequences", "inputs"],
     "for every history of calls over reused, write-protected, unmapped and scribbled buffers, with every size and alignment, and every content of the stack and of unspecified register halves",
     "Tests pass fresh ordinary arrays and look only at the result; a one-byte overread, a temporary change of an input, or a retained or shared array goes unnoticed.",
     ["cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Base58Check.cpp", "cpp/CurvePoint.cpp", "cpp/Uint256.cpp", "cpp/Sha256Hash.cpp",
      "cpp/Utils.cpp", "cpp/AsmX8664.s", J + "Sha256Hash.java", J + "Base58Check.java", J + "Bech32.java", J + "Sha256.java", J + "Sha512.java", J + "Ecdsa.java"],
     [("defensive copies", J + "Sha256Hash.java constructor and toBytes"), ("const inputs and fixed-size outputs", "cpp/*.hpp signatures")],
     [], ["write-protection and guard-page faults", "later results"])

prop("C15", "Java: control flow and array accesses do not depend on secrets",
     "For Java operations documented as constant-time (256-bit integer, field and curve point arithmetic, successful signing), the sequence of executed branches, array indexes, allocations and calls is the same for all values of the secret inputs. "
     "So an attacker that preempts the calling thread at any points and observes progress and touched array positions learns nothing about the secrets.",
     ["schedules", "inputs"],
     "for every pair of secret inputs with equal public inputs and every schedule of attacker observations, at bytecode level",
     "Functional tests cannot see control flow; a secret-dependent branch returns the right answer.",
     [J + "Int256Math.java", J + "CurvePointMath.java", J + "Ecdsa.java"],
     [("mask-based selection and fixed iteration counts", J + "Int256Math.java, CurvePointMath.java, Ecdsa.java")],
     [], ["trace of branches and array indexes"])

prop("C16", "Mixed C++/Java network: every node computes the standard hashes and addresses",
     "Nodes running the C++, C++ with assembly, and Java implementations that receive the same bytes compute the same SHA-256, double SHA-256, SHA-512, RIPEMD-160, Keccak-256, HMAC-SHA-256 and HMAC-SHA-512 values and the same Base58Check addresses, and they are the values the standards define, for every "
     "message and key length. So a message whose identifier or tag was damaged, truncated, spliced or replayed under another identifier is refused by every node, and after faults stop all nodes hold the same set of messages.",
     ["inputs", "fault_sequences", "histories"],
     "for every message content and length, key length, delivery order, and loss, duplication, truncation, splice and corruption of messages in transit",
     "Each implementation's tests compare fixed vectors; lengths around every block boundary and long keys are sampled sparsely and the implementations are never compared with each other.",
     ["cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Base58Check.cpp", J + "Sha256.java", J + "Sha512.java", J + "Ripemd160.java", J + "Keccak256.java", J + "Base58Check.java"],
     [("padding and length encoding", "getHash functions in cpp/*.cpp and " + J + "*.java"), ("key preprocessing", "getHmac functions")],
     [], ["identifiers and tags computed by each node", "stored message sets"])

CPPALL = ["cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp",
          "cpp/Ecdsa.cpp", "cpp/ExtendedPrivateKey.cpp", "cpp/Base58Check.cpp", "cpp/AsmX8664.s"]
prop("C17", "C++: calls interrupted or abandoned at any point disturb no other call",
     "Once every operation has been used once, a C++ call may be interrupted at any point by a handler on the same thread (a signal handler, an interrupt on a hardware wallet) that itself makes library calls on its own objects, nested to any depth, or may be abandoned there and never resumed (a jump out of the handler). "
     "The interrupted call, once resumed, the calls made by the handler and every later call give exactly the results they give alone, none of them waits for the interrupted call to proceed, and no input is modified.",
     ["crash_points", "schedules", "histories"],
     "for every operation, every point inside it (down to single instructions of the x86-64 assembly), every operation of the handler, every nesting and every later history",
     "No test interrupts a call; a static or thread-local scratch area, or a lock around a cache, passes every test and every single-threaded use.",
     CPPALL, [("all working state is in locals and caller objects", "every function in cpp/*.cpp"), ("assembly keeps its state in registers and below its own stack pointer", "cpp/AsmX8664.s")],
     [], ["return values and output arguments of interrupted, interrupting and later calls"])

prop("C18", "A long-running process: no call history makes memory grow",
     "However many calls of the C++ or Java library a process makes - with equal or ever new arguments, accepted or refused, on one thread or on threads that come and go - the library keeps at most a small fixed amount of memory for them (64 KiB), leaks nothing per call, leaves no file descriptor open and no thread running, and still computes right results.",
     ["histories", "inputs"],
     "for every operation and every history of calls, of any length, from any sequence of threads",
     "Tests make a handful of calls and exit; a cache without a bound, a leak on a refusal path or memory tied to a thread that has exited is invisible to them.",
     CPPALL + [J + f for f in ("Sha256.java", "Sha512.java", "Ripemd160.java", "Keccak256.java", "Sha256Hash.java", "Base58Check.java", "Bech32.java", "Int256Math.java", "CurvePointMath.java", "Ecdsa.java", "Utils.java")],
     [("no cache, no static container; temporaries are locals and std::unique_ptr/std::vector owned", "every function in cpp/*.cpp and " + J + "*.java")],
     [], ["live heap bytes, file descriptors and threads after a history", "results of sampled calls"])

# Properties that this family does not decide
prop("C19", "Hash and number texts: exact or refused; equality and order follow the number",
     "A node that receives hashes and 256-bit numbers as text from a lossy or hostile channel can rely on this: a text is good exactly when it has 64 characters that are all ASCII hexadecimal digits of either case. "
     "In Java a good text gives exactly that number or hash and any other string is refused with IllegalArgumentException, leaving the output array as it was; in C++ Utils::parseHexDigit gives the digit's value for exactly those 22 character codes and -1 for every other int, "
     "and Uint256, FieldInt and Sha256Hash objects made from good texts hold exactly the value. Hash texts are the byte-reversed bytes. Text, bytes and object convert into each other without loss, also across restarts; "
     "byte arrays of wrong length are refused (Java). For all values and whatever happened before, equality, hash code, ordering (hash compareTo in Java, the comparison operators in C++) agree with the number the text denotes, "
     "conditional replace and swap move whole values or nothing, and the constants ZERO and ONE keep their values.",
     ["inputs", "histories", "crash_points"],
     "for every text, byte array and pair of values, after every history of accepted and refused texts, look-ups, moves, sorts and restarts",
     "Tests use fixed vectors and a few malformed strings; signs, look-alike digits of other scripts, and pairs that differ in one place only are not among them.",
     ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/Sha256Hash.cpp", "cpp/Utils.cpp", "cpp/AsmX8664.s", J + "Sha256Hash.java", J + "Utils.java", J + "Int256Math.java"],
     [("digit parsing", "Utils::parseHexDigit; Utils.hexToBytes, Int256Math.hexToUint"), ("byte reversal", "Sha256Hash(const char*), Sha256Hash.toString"), ("order and equality", "Sha256Hash.compareTo/equals/hashCode; Uint256 operators")])
prop("C30", "256-bit integer and field arithmetic is exact for all operands",
     "Addition, subtraction, shifts, comparison, modular reciprocal of 256-bit integers, and addition, subtraction, doubling, squaring, multiplication and reciprocal modulo the curve prime give the exact mathematical result for all operands, in C++ (portable and assembly) and Java, including when output and input positions coincide where allowed.",
     ["inputs"], "for all operand values", "Tests sample random operands; carries of probability 2^-32 or 2^-64 never occur.",
     ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/AsmX8664.s", J + "Int256Math.java"], [("carry propagation, Barrett reduction", "cpp/FieldInt.cpp, " + J + "Int256Math.java")])
prop("C31", "Curve point operations obey the group law for all points",
     "Addition, doubling, multiplication by any 256-bit integer, normalisation and on-curve testing of curve points give the exact result for all representations of all points, including infinity, equal and opposite points.",
     ["inputs"], "for all points, representations and multipliers", "Tests sample fixed and random points.",
     ["cpp/CurvePoint.cpp", J + "CurvePointMath.java"], [("case selection by masks", "CurvePoint::add, CurvePointMath.add")])
prop("C32", "One-shot hash functions match their standards for every message",
     "SHA-256, SHA-512, RIPEMD-160, Keccak-256 and both HMACs return the standard value of any single byte string, called alone.",
     ["inputs"], "for all messages and keys", "Tests use fixed vectors.",
     ["cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", J + "Sha256.java", J + "Sha512.java", J + "Ripemd160.java", J + "Keccak256.java"],
     [("padding and compression functions", "compress/absorb functions")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
