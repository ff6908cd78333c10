#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Base64 encoding is exact and never leaves the result buffer",
 "For every byte string and every result capacity, encoding reports success exactly when the capacity holds the RFC 4648 text (standard alphabet, '=' padding) plus its terminating null character, and then the result is exactly that text and terminator. On failure a non-zero status is returned, and in every case nothing outside the given capacity is written (a capacity of zero means nothing is written) and nothing outside the input is read.",
 ["inputs"], "every data length (up to the largest object), every content, every capacity including 0 and exactly-full",
 "The tests encode four short strings into roomy or clearly too small buffers; exact-fit and off-by-one capacities and the other byte values and lengths are never tried.",
 ["Src/base64.c", "Inc/base64.h"], [("Base64_encode", "Src/base64.c")])
prop("C02", "Base64 decoding inverts encoding for every byte string",
 "For every non-empty byte string, decoding its standard Base64 text (padded; the same text with the '=' padding left out also works) into a buffer with room for the data succeeds and yields exactly the original bytes. If the buffer is too small for the data a non-zero status is returned, and an input of length zero is rejected.",
 ["inputs"], "every data length >= 1 (hence every residue modulo 3) and every content, every output capacity",
 "Round trips are sampled on a few texts; one- and two-byte data, every tail class and exact-fit capacities need the universal statement.",
 ["Src/base64.c", "Inc/base64.h"], [("Base64_decode", "Src/base64.c")])
prop("C03", "Base64 decoding is memory safe on arbitrary text",
 "For every input of any length and content, well formed or not, decoding reads only the given input characters and writes only inside the given output capacity, and always returns.",
 ["inputs"], "every input length (all residues modulo 4) and content, every output capacity including 0",
 "Tests give the function valid texts and one malformed one; out-of-bounds accesses on odd lengths do not fail a test.",
 ["Src/base64.c"], [("Base64_decode", "Src/base64.c")])
prop("C04", "Single-bit operations affect exactly the requested bit and reject bad positions",
 "For every 32-bit value and every position 0..31, setting, clearing, toggling and testing a bit report success and produce the value that differs from the input in at most that one bit (respectively that bit's state). For every position above 31 they report failure and leave the output untouched.",
 ["inputs"], "all 2^32 values and all 256 positions",
 "Tests sample a handful of value/position pairs.",
 ["Src/bit_manipulation.c", "Inc/bit_manipulation.h"], [("BitManipulation_bitSet/setBit/clearBit/toggleBit", "Src/bit_manipulation.c")])
prop("C05", "Bit reflection and rotation are exact for every width and distance",
 "Reflecting the low n bits of a value (n from 0 to 32) yields the value whose bit i equals bit n-1-i of the input and whose other bits are zero. Rotating left by any distance moves bit i to position (i + distance) modulo 32 and loses no bit, including distance 0 and multiples of 32.",
 ["inputs"], "all 2^32 values, all widths 0..32, all 2^32 distances",
 "Tests sample a few values and distances; distance 0 was undefined behaviour that no test caught.",
 ["Src/bit_manipulation.c", "Inc/bit_manipulation.h"], [("BitManipulation_reflect", "Src/bit_manipulation.c"), ("BitManipulation_rotl32", "Src/bit_manipulation.c")])
crcwhy = "Tests check seven short messages per variant, which do not reach most of the 256 table entries; the statement quantifies over all messages and all initial values."
prop("C06", "Every CRC-8 variant computes its published checksum for every message",
 "For every message of every length, each of the 13 CRC-8 functions returns the checksum that the bit-by-bit polynomial division of its published parameters (polynomial, initial value, input and output reflection, final xor) gives. It reads exactly the message bytes.",
 ["inputs"], "13 variants, every message length below 2^32 and every content, every initial value, with the finalisation flag set",
 crcwhy, ["Src/crc/crc8_base.c", "Src/crc/crc8_variants/*.c"], [("Crc8Base", "Src/crc/crc8_base.c"), ("Crc8, Crc8_* variants and tables", "Src/crc/crc8_variants")])
prop("C07", "Every CRC-16 variant computes its published checksum for every message",
 "For every message of every length, each of the 23 CRC-16 functions returns the checksum that the bit-by-bit polynomial division of its published parameters (polynomial, initial value, input and output reflection, final xor) gives. It reads exactly the message bytes.",
 ["inputs"], "23 variants, every message length below 2^32 and every content, every initial value, with the finalisation flag set",
 crcwhy, ["Src/crc/crc16_base.c", "Src/crc/crc16_variants/*.c"], [("Crc16Base", "Src/crc/crc16_base.c"), ("Crc16_* variants and tables", "Src/crc/crc16_variants")])
prop("C08", "Every CRC-32 variant computes its published checksum for every message",
 "For every message of every length, each of the 9 CRC-32 functions returns the checksum that the bit-by-bit polynomial division of its published parameters (polynomial, initial value, input and output reflection, final xor) gives. It reads exactly the message bytes.",
 ["inputs"], "9 variants, every message length below 2^32 and every content, every initial value, with the finalisation flag set",
 crcwhy, ["Src/crc/crc32_base.c", "Src/crc/crc32_variants/*.c"], [("Crc32Base", "Src/crc/crc32_base.c"), ("Crc32_* variants and tables", "Src/crc/crc32_variants")])
prop("C09", "A checksum computed in chunks equals the checksum of the whole message",
 "For every CRC variant, every message and every way of cutting it into consecutive chunks (empty ones included), feeding the chunks in order, each call continuing from the previous call's result and only the last one finalising, returns the checksum of the whole message. A null previous result starts a new message.",
 ["inputs", "histories"], "45 variants, every message, every number and position of cuts",
 "Tests cut one nine-byte message in one fixed way per variant.",
 ["Src/crc"], [("last_crc_ptr / final_crc handling of every variant", "Src/crc/*_variants"), ("Crc8Base/Crc16Base/Crc32Base", "Src/crc")])
prop("C10", "The CRC engine and table generator are exact for every polynomial",
 "For every polynomial of the given width the table generator fills entry i with the remainder of i (in the top byte) after eight bitwise division steps, writing exactly 256 entries. With such a table and any initial value, final xor value and reflection flags, the generic CRC function returns the bitwise checksum of every message with exactly those parameters.",
 ["inputs"], "all polynomials of widths 8, 16 and 32, all flags, all initial/xor values, all messages",
 "Tests generate one table per width and run the generic function only with the shipped parameter sets.",
 ["Src/crc/crc8_base.c", "Src/crc/crc16_base.c", "Src/crc/crc32_base.c"], [("CrcNBase_tableCalculator", "Src/crc/crcN_base.c"), ("CrcNBase", "Src/crc/crcN_base.c")])
prop("C11", "ChaCha20 output equals RFC 8439 for every key, nonce, counter and length",
 "For every key, nonce, initial block counter and message, output byte t is input byte t xored with byte t mod 64 of the RFC 8439 ChaCha20 block for counter (initial + t div 64) modulo 2^32. This holds for every length, including partial last blocks and counters that wrap.",
 ["inputs"], "all 2^256 keys, 2^96 nonces, 2^32 counters, every length below 2^32",
 "Tests compare a few vectors, with few lengths and counters.",
 ["Src/crypto/chacha20.c"], [("Chacha20_crypt", "Src/crypto/chacha20.c"), ("Block, QuarterRound", "Src/crypto/chacha20.c"), ("BitManipulation_rotl32, Utils_*serialize32LE", "Src")])
prop("C12", "ChaCha20 touches only the message range, works in place and undoes itself",
 "Encrypting writes exactly the output range of the message's length and nothing else, never changes the key, the nonce or a separate input, and gives the same result when output and input are the same buffer. Applying it twice with the same parameters restores the original message, whatever its length.",
 ["inputs", "histories"], "every key, nonce, counter, length and content; separate and identical buffers",
 "Tests use exactly sized round trips of a few messages, and neither look outside the output range nor run in place.",
 ["Src/crypto/chacha20.c"], [("Chacha20_crypt", "Src/crypto/chacha20.c")])
prop("C13", "Caesar cipher shifts exactly the letters and decryption undoes encryption",
 "For every string and every shift 0..255, encryption replaces each ASCII letter by the letter shift places further in the alphabet (wrapping, keeping case) and leaves every other character and the terminator alone, and decryption does the same backwards. Hence decrypting with the same shift restores every message exactly.",
 ["inputs"], "every string length and content (all 255 non-null characters), all 256 shifts",
 "One message with one shift is tested, a case in which no decrypted letter wraps.",
 ["Src/crypto/caesar_cipher.c", "Src/utils.c"], [("CaesarCipher_encrypt/decrypt", "Src/crypto/caesar_cipher.c"), ("Utils_isAlpha/isUpperChar", "Src/utils.c")])
prop("C14", "Vernam cipher maps letters to letters and decryption undoes it for every key",
 "For every message and every key of the same length, encryption succeeds, adds to each ASCII letter the alphabet offset of its key character (counted from 'a' for lower-case letters, else from 'A') modulo 26 keeping case, and leaves every other character alone; decryption with the same key restores the message exactly. If the key length differs from the message length both operations report failure and leave the message untouched.",
 ["inputs"], "every message shorter than 2^31 characters, every key content (letters or not), every claimed key length",
 "One message with two keys is tested, and only for the round trip.",
 ["Src/crypto/vernam_cipher.c", "Src/utils.c"], [("VernamCipher_encrypt/decrypt", "Src/crypto/vernam_cipher.c")])
prop("C15", "JSON building writes exactly the right text within capacity or changes nothing",
 "For every buffer capacity, current text, key and value, starting, adding a pair and ending an object succeed exactly when the resulting text with its terminator fits the capacity; on success the text is the old text followed by exactly '{', or an optional ',' (present exactly when the old text ends in a quote) and '\"key\":\"value\"', or '}'. On failure the buffer's text is unchanged, and never is anything read or written outside the capacity.",
 ["inputs", "histories"], "every capacity, existing text (empty included), key and value content and length",
 "Tests build one pair in a roomy buffer; exactly-full buffers, failing additions after others and empty buffers are not examined.",
 ["Src/json.c", "Inc/json.h"], [("Json_startString/addData/endString", "Src/json.c")])
prop("C16", "Looking up a key in a JSON text returns that key's value, whatever else is there",
 "For every flat JSON object text with string keys and string values (no escaped quotes, optional white space around tokens), looking up a key (one without quote characters) returns the value of the first pair with exactly that key when value and terminator fit the given value capacity, and reports failure otherwise. Whatever stands in the buffer behind the text's terminating null character is ignored. Keys that are a prefix, suffix or part of other keys or values never confuse the lookup.",
 ["inputs", "histories"], "every text, key and value capacity; in particular every text produced by the builder from any sequence of pairs",
 "Tests look up a few keys in fixed texts in which the looked-up text does not occur earlier.",
 ["Src/json.c", "Inc/json.h"], [("Json_findByKey", "Src/json.c")])
prop("C17", "JSON lookup is memory safe and always terminates on arbitrary text",
 "For every buffer content and size (not necessarily null-terminated or valid JSON), key and value capacity, lookup reads only the given buffer and key, writes only inside the value capacity, always returns, and when it reports success the value is null-terminated within its capacity.",
 ["inputs"], "every buffer content and size, key, value capacity including 0",
 "Tests use well-formed or nearly well-formed texts, and reads outside a buffer do not fail a test.",
 ["Src/json.c"], [("Json_findByKey", "Src/json.c")])
prop("C18", "The map behaves as a bounded finite map over every history of operations",
 "After initialisation and any sequence of insertions and look-ups, looking up a key succeeds exactly when it has been inserted and returns the value most recently inserted under it; inserting succeeds unless the key is new and the map is full, in which case nothing changes. Keys stay distinct, other keys' values are never disturbed, and initialisation rejects null storage and sizes that are not positive.",
 ["histories", "inputs"], "every operation sequence, key/value size, capacity and content (storage of at most 2^31-1 bytes)",
 "Tests run one short sequence on one key and value size.",
 ["Src/map.c", "Inc/map.h"], [("Map_init/insert/getValue", "Src/map.c"), ("GetIndex", "Src/map.c")])
prop("C19", "The queue is first-in first-out over every history of operations",
 "After initialisation and any sequence of operations, elements leave the queue in exactly the order in which they entered, byte for byte; enqueueing succeeds exactly when fewer than capacity elements are held and dequeueing or peeking at either end exactly when at least one is held. The full and empty queries agree with the number held, failing operations change nothing, and initialisation rejects zero sizes and null storage.",
 ["histories", "inputs"], "every interleaving of enqueue, dequeue and peeks (any number of wrap-arounds), every capacity and element size whose product fits 32 bits",
 "Tests run short sequences on one small capacity.",
 ["Src/queue.c", "Inc/queue.h"], [("Queue_*", "Src/queue.c")])
prop("C20", "The priority queue dequeues by highest priority, first-in first-out among equals",
 "After any sequence of operations, dequeueing returns the held element of highest priority, the earliest enqueued one among equals, byte for byte, and keeps all others with their priorities and order. Enqueueing into a full queue evicts the earliest of the lowest-priority elements exactly when the new priority is strictly higher, and otherwise reports failure and changes nothing; into a queue that is not full it always succeeds.",
 ["histories", "inputs"], "every operation sequence, capacity, element size (product fits 32 bits), priorities and contents",
 "Tests run one sequence on one capacity with mostly distinct priorities.",
 ["Src/priority_queue.c", "Inc/priority_queue.h"], [("PriorityQueue_*", "Src/priority_queue.c"), ("GetHighestPriorityIndex/GetLowestPriorityIndex", "Src/priority_queue.c")])
prop("C21", "The scheduler runs every added active task exactly once per run, in slot order",
 "After initialisation every slot is free; adding a task stores it unchanged in the first free slot and leaves all other slots alone, and fails without any change exactly when no slot is free. A run calls each stored task that is active exactly once, in slot order, and calls nothing else.",
 ["histories", "inputs"], "every number of slots, every sequence of additions and runs, every mix of active and inactive tasks",
 "Tests use a handful of tasks and one order.",
 ["Src/scheduler.c", "Inc/scheduler.h"], [("Scheduler_init/addTask/run", "Src/scheduler.c")])
sortq = "every element count, every element size >= 1 (total size at most 2^31-1 bytes), every content, every comparison function that is a strict weak order"
sortwhy = "Tests sort a few fixed small arrays; other orders, sizes and duplicates, and accesses just outside the array, are not covered."
for i, (n, f) in enumerate([("Bubble", "bubble_sort"), ("Selection", "selection_sort"), ("Insertion", "insertion_sort"), ("Heap", "heap_sort")]):
    prop("C%d" % (22 + i), n + " sort yields an ordered permutation and stays inside the array",
     "For every array%s and every strict-weak-order comparison, %s sort terminates with the array holding exactly the elements it was given (same multiset, each moved whole) in non-decreasing order. It hands only existing elements to the comparison function and reads and writes nothing outside the array; arrays of zero or one element are left alone." % (" (of elements of at most 64 bytes)" if n == "Insertion" else "", n.lower()),
     ["inputs"], sortq, sortwhy, ["Src/sort/%s.c" % f, "Src/utils.c"], [(n + "Sort_sort", "Src/sort/%s.c" % f)] + ([("Heapify", "Src/sort/heap_sort.c")] if n == "Heap" else []) + ([("Utils_swapElements", "Src/utils.c")] if n != "Insertion" else []))
prop("C26", "Integer serialization has the documented byte order and round-trips",
 "For every value of 8, 16, 24 or 32 bits, big-endian serialization writes exactly the value's bytes most significant first and little-endian least significant first, touching no other byte, and deserialization of any bytes returns the number they spell. Hence deserializing what was serialized in the same order returns the value (its low 24 bits for the 24-bit form).",
 ["inputs"], "all values and all byte contents, all widths and both orders, at every buffer alignment",
 "Tests sample one or two values per function.",
 ["Src/utils.c", "Inc/utils.h"], [("Utils_serialize*/Utils_deserialize*", "Src/utils.c")])
prop("C27", "Blob serialization copies or reverses exactly, for every length",
 "For every length and separate source and destination, big-endian blob (de)serialization copies the bytes in order and little-endian blob (de)serialization copies them in reverse order, writing exactly that many bytes and changing nothing else. Hence serializing and deserializing a blob in the same order restores it.",
 ["inputs"], "every length below 2^32 and every content",
 "Tests copy one short blob per order; lengths with the top bit set copied nothing and no test noticed.",
 ["Src/utils.c", "Inc/utils.h"], [("Utils_serializeBlobBE/LE, Utils_deserializeBlobBE/LE", "Src/utils.c")])
prop("C28", "Decimal parsing accepts exactly the 32-bit numbers and returns their value",
 "For every text of length 1 to 255, parsing succeeds exactly when the length is at most 10, all characters are decimal digits and the number is at most 4294967295, and then yields exactly that number. It reads only the given characters, which need not be null-terminated.",
 ["inputs"], "every length 1..255 and every content; in particular all values around 2^32",
 "Tests try about a dozen strings.",
 ["Src/utils.c", "Inc/utils.h"], [("Utils_stringToUint32", "Src/utils.c"), ("Utils_quickUint32Pow10", "Src/utils.c")])
prop("C29", "Swapping exchanges two elements of any size and touches nothing else",
 "For every size and two separate memory ranges of that size, swapping leaves each range with exactly the other's former bytes and changes no other byte; swapping a range with itself leaves it unchanged.",
 ["inputs"], "every size below 2^32 and all contents, distinct or identical ranges",
 "Tests swap a few small objects.",
 ["Src/utils.c", "Inc/utils.h"], [("Utils_swapElements", "Src/utils.c")])
prop("C30", "Powers of ten and letter classification are exact for every argument",
 "For every exponent 0..9 the quick power yields exactly ten to that power and succeeds, and for every larger exponent it fails and leaves the result untouched. For every character the upper-case, lower-case and letter predicates hold exactly for 'A'..'Z', 'a'..'z' and their union.",
 ["inputs"], "all 256 exponents and all 256 characters",
 "Tests sample a few exponents and characters.",
 ["Src/utils.c", "Inc/utils.h"], [("Utils_quickUint32Pow10", "Src/utils.c"), ("Utils_isUpperChar/isLowerChar/isAlpha", "Src/utils.c")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
