"""Planted changes: id -> property, edits {file: [(old, new)]}, demo (C program: exit 0 when the library behaves)."""
SEEDS = {}


def seed(i, prop, needs, breaks, edits, demo, **k):
    SEEDS[i] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)


H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <stdbool.h>\n'

seed('c01-long-input', 'C01', 'an input longer than 65535 bytes', 'the position counter of the encoder wraps at 16 bits: long inputs are encoded with garbage or rejected',
     {'Src/base64.c': [('        size_t in_position = 0U;\n', '        uint16_t in_position = 0U;\n')]},
     H + r'''
#include "base64.h"
int main(void) {
    size_t n = 66000, cap = 4 * ((n + 2) / 3) + 1;
    char *d = calloc(n, 1), *r = calloc(cap, 1);
    memset(d, 0, n);
    if (Base64_encode(d, n, r, cap) != 0) return 1;
    return strlen(r) == cap - 1 ? 0 : 1;
}
''')

seed('c02-exact-capacity', 'C02', 'a text of 3k+2 data bytes decoded into a buffer of exactly that size', 'decoding fails although the buffer has room for all the data',
     {'Src/base64.c': [('                if ((out_len + 1U) > max_out_len) {', '                if ((out_len + 1U) >= max_out_len) {')]},
     H + r'''
#include "base64.h"
int main(void) {
    uint8_t o[8];
    if (Base64_decode("aGVsbG8=", 8, o, 5) != 0) return 1;
    return memcmp(o, "hello", 5) != 0;
}
''')

seed('c02-table', 'C02', 'text that contains the digit 8', 'the entry of 8 in the decoding table is wrong',
     {'Src/base64.c': [('58U, 59U, 60U,\n', '58U, 59U, 61U,\n')]},
     H + r"""
#include "base64.h"
int main(void) {
    uint8_t o[8];
    static const uint8_t want[3] = {0xf3, 0xcf, 0x3c};
    if (Base64_decode("8888", 4, o, 3) != 0) return 1;
    return memcmp(o, want, 3) != 0;
}
""")

seed('c03-overread', 'C03', 'a text whose length leaves three characters in its last group', 'the decoder reads the character behind the input',
     {'Src/base64.c': [("            if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {", "            if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=') && (in_data_uchar[len + 3U] != (uint8_t)'\\0')) {")]},
     H + r'''
#include "base64.h"
int main(void) {
    char *t = malloc(7);
    uint8_t o[9] = {0};
    memcpy(t, "aGVsbG8", 7);
    if (Base64_decode(t, 7, o, 5) != 0) return 1;
    free(t);
    return memcmp(o, "hello", 5) != 0;
}
''')

seed('c04-toggle-range', 'C04', 'toggling at a position of 200 to 231', 'positions of 200 to 231 are accepted',
     {'Src/bit_manipulation.c': [('''BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
    bool status = false;
    if (n <= MAX_BIT_SHIFT) {''', '''BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
    bool status = false;
    n = (n < 200U) ? n : (uint8_t)(n - 200U);
    if (n <= MAX_BIT_SHIFT) {''')]},
     H + r'''
#include "bit_manipulation.h"
int main(void) {
    uint32_t o = 77;
    for (int n = 32; n < 256; ++n) if (BitManipulation_toggleBit(5, (uint8_t)n, &o) || o != 77) return 1;
    return 0;
}
''')

seed('c05-width', 'C05', 'reflecting more than 16 and fewer than 32 bits of a value with bits set above bit 15', 'the upper part of the value is ignored for the widths 17 to 31',
     {'Src/bit_manipulation.c': [('    uint32_t temp_data = data;\n', '    uint32_t temp_data = (n_bits < 32u) ? (data & 0xFFFFu) : data;\n')]},
     H + r'''
#include "bit_manipulation.h"
int main(void) { return BitManipulation_reflect(0x00800001u, 24) != 0x00800001u; }
''')

seed('c06-table-entry', 'C06', 'a message that leads to table entry 0xB7', 'one entry of the table of CRC-8 EBU is wrong',
     {'Src/crc/crc8_variants/crc8_ebu.c': [('0x84U, 0xA3U', '0x84U, 0xA3U')] if False else [('0xCDU, 0xD0U, 0xF7U, 0xEAU, 0xB9U, 0xA4U, 0x83U, 0x9EU, 0x25U, 0x38U, 0x1FU, 0x02U, 0x51U, 0x4CU, 0x6BU, 0x76U,', '0xCDU, 0xD0U, 0xF7U, 0xEAU, 0xB9U, 0xA4U, 0x83U, 0x9EU, 0x25U, 0x38U, 0x1FU, 0x02U, 0x51U, 0x4CU, 0x6DU, 0x76U,')]},
     H + r'''
#include "crc/crc8_variants/crc8_ebu.h"
static uint8_t ref(const uint8_t *d, int n) {   /* bitwise, reflected form of 0x1D */
    uint8_t c = 0xFF;
    for (int i = 0; i < n; ++i) { c ^= d[i]; for (int b = 0; b < 8; ++b) c = c & 1 ? (c >> 1) ^ 0xB8 : c >> 1; }
    return c;
}
int main(void) {
    for (int i = 0; i < 256; ++i) { uint8_t b = (uint8_t)i; if (Crc8_ebu(&b, 1, true, NULL) != ref(&b, 1)) return 1; }
    return 0;
}
''')

seed('c07-init', 'C07', 'continuing from a previous value of zero with CRC-16 Modbus', 'a previous result of zero is treated as a new message',
     {'Src/crc/crc16_variants/crc16_modbus.c': [('    if (NULL_PTR != last_crc_ptr) {', '    if ((NULL_PTR != last_crc_ptr) && (*last_crc_ptr != 0U)) {')]},
     H + r'''
#include "crc/crc16_variants/crc16_modbus.h"
int main(void) {
    uint16_t last = 0;
    uint8_t b = 0;
    return Crc16_modbus(&b, 1, true, &last) != 0;
}
''')

seed('c07-long', 'C07', 'a message of 65536 bytes or more', 'the generic CRC-16 function looks at the low 16 bits of the length only',
     {'Src/crc/crc16_base.c': [('    for (uint32_t counter = 0U; counter < crc_length; ++counter) {', '    const uint16_t count = (uint16_t)crc_length;\n    for (uint32_t counter = 0U; counter < count; ++counter) {')]},
     H + r'''
#include "crc/crc16_variants/crc16_ccit_zero.h"
int main(void) {
    uint32_t n = 70000;
    uint8_t *d = malloc(n);
    memset(d, 0, n);
    d[0] = 1;
    uint16_t c = Crc16_ccitZero(d, 1, NULL);
    c = Crc16_ccitZero(d + 1, 35000, &c);
    c = Crc16_ccitZero(d + 35001, n - 35001, &c);
    return Crc16_ccitZero(d, n, NULL) != c;
}
''')

seed('c08-table-entry', 'C08', 'a message that leads to one particular table entry', 'one entry of the table of CRC-32 POSIX is wrong in one bit',
     {'Src/crc/crc32_variants/crc32_posix.c': [('0x87EE0DF6U', '0x87EE0DF4U')]},
     H + r'''
#include "crc/crc32_variants/crc32_posix.h"
static uint32_t ref(uint8_t b) { uint32_t c = (uint32_t)b << 24; for (int i = 0; i < 8; ++i) c = c >> 31 ? c << 1 ^ 0x4C11DB7u : c << 1; return ~c; }
int main(void) {
    for (int i = 0; i < 256; ++i) { uint8_t b = (uint8_t)i; if (Crc32_posix(&b, 1, true, NULL) != ref(b)) return 1; }
    return 0;
}
''')

seed('c09-chunk', 'C09', 'a message in chunks, one of which ends with an intermediate result of zero, or an empty chunk at the start', 'an empty chunk resets the running checksum of CRC-16 XMODEM-like variant DNP',
     {'Src/crc/crc16_variants/crc16_dnp.c': [('    if (NULL_PTR != last_crc_ptr) {', '    if ((NULL_PTR != last_crc_ptr) && (crc_length != 0U)) {')]},
     H + r'''
#include "crc/crc16_variants/crc16_dnp.h"
int main(void) {
    uint8_t d[5] = {1, 2, 3, 4, 5};
    uint16_t w = Crc16_dnp(d, 5, true, NULL), c = Crc16_dnp(d, 5, false, NULL);
    c = Crc16_dnp(d + 5, 0, true, &c);
    return c != w;
}
''')

seed('c10-flags', 'C10', 'reflected input without reflected output together with a final xor', 'the final xor is skipped for one combination of flags that no variant uses',
     {'Src/crc/crc8_base.c': [('    if (final_xor) {', '    if (final_xor && (reflected_output || !reflected_input)) {')]},
     H + r'''
#include "crc/crc8_base.h"
int main(void) {
    uint8_t t[256];
    uint8_t d[3] = {1, 2, 3};
    Crc8Base_tableCalculator(0x1D, t);
    return (Crc8Base(t, d, 3, 7, 0x55, false, true, true) ^ 0x55) != Crc8Base(t, d, 3, 7, 0x55, false, true, false);
}
''')

seed('c10-table', 'C10', 'a polynomial without its lowest bit set', 'the table generator forces the lowest bit of the polynomial',
     {'Src/crc/crc8_base.c': [('                residue = (residue << 1U) ^ polynomial;', '                residue = (uint8_t)(residue << 1U) ^ (polynomial | 1U);')]},
     H + r'''
#include "crc/crc8_base.h"
int main(void) {
    uint8_t t[256];
    Crc8Base_tableCalculator(0x30u, t);
    return t[1] != 0x30u;
}
''')

seed('c11-counter-wrap', 'C11', 'a block counter that wraps around 2^32 inside the message', 'the wrapped counter is off by one',
     {'Src/crypto/chacha20.c': [('        Block(key, j + inc, nonce, key_stream);\n', '        const uint32_t counter = (inc > (0xFFFFFFFFU - j)) ? (j - (0xFFFFFFFFU - inc)) : (inc + j);\n        Block(key, counter, nonce, key_stream);\n')]},
     H + r'''
#include "crypto/chacha20.h"
int main(void) {
    static uint8_t key[32], nonce[12], d[192], a[192], b[64];
    Chacha20_crypt(d, 192, key, nonce, 0xFFFFFFFFu, a);
    Chacha20_crypt(d, 64, key, nonce, 0, b);
    return memcmp(a + 64, b, 64) != 0;
}
''')

seed('c12-tail', 'C12', 'a message whose length is not a multiple of four, next to other data', 'the last partial block is written in whole words, past the end of the output',
     {'Src/crypto/chacha20.c': [('        for (uint32_t i = 0; i < remaining_bytes; ++i) {', '        for (uint32_t i = 0; i < ((remaining_bytes + 3U) & ~3U); ++i) {')]},
     H + r'''
#include "crypto/chacha20.h"
int main(void) {
    static uint8_t key[32], nonce[12];
    uint8_t b[72];
    memset(b, 0x11, sizeof b);
    Chacha20_crypt(b, 65, key, nonce, 1, b);
    for (int i = 65; i < 72; ++i) if (b[i] != 0x11) return 1;
    return 0;
}
''')

seed('c12-inplace', 'C12', 'encrypting in place more than one block', 'a checksum-like feedback reads the previous plaintext block from the input after the output was written',
     {'Src/crypto/chacha20.c': [('            result[(j * BLOCK_SIZE) + i] = plaintext[(j * BLOCK_SIZE) + i] ^ key_stream[i];\n', '            result[(j * BLOCK_SIZE) + i] = key_stream[i];\n'),
                                ('    if (0U != remaining_bytes) {', '    for (uint32_t k = 0; k < (blocks * BLOCK_SIZE); ++k) {\n        result[k] ^= plaintext[k];\n    }\n\n    if (0U != remaining_bytes) {')]},
     H + r'''
#include "crypto/chacha20.h"
int main(void) {
    static uint8_t key[32], nonce[12], a[64], b[64];
    memset(a, 7, 64);
    Chacha20_crypt(a, 64, key, nonce, 1, b);
    Chacha20_crypt(a, 64, key, nonce, 1, a);
    return memcmp(a, b, 64) != 0;
}
''')

seed('c13-big-shift', 'C13', 'a shift above 230 and a letter late in the alphabet', 'the shifted position is truncated to eight bits before the reduction',
     {'Src/crypto/caesar_cipher.c': [('            uint8_t encrypted_char = (((uint8_t)msg[i] + shift - ascii_val) % MAX_SHIFT) + ascii_val;', '            const uint8_t position = (uint8_t)((uint8_t)msg[i] - ascii_val + shift);\n            uint8_t encrypted_char = (position % MAX_SHIFT) + ascii_val;')]},
     H + r'''
#include "crypto/caesar_cipher.h"
int main(void) {
    char m[] = "Zebra, zoo";
    CaesarCipher_encrypt(m, 250);
    CaesarCipher_decrypt(m, 250);
    return strcmp(m, "Zebra, zoo") != 0;
}
''')

seed('c14-high-key', 'C14', 'a key with bytes above 127', 'encryption reads key bytes as unsigned, decryption as signed',
     {'Src/crypto/vernam_cipher.c': [('                int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);', '                int32_t temp = (((int8_t)msg[i] - ascii_val + (uint8_t)key[i] - c) % NUM_OF_ALPHA);')]},
     H + r'''
#include "crypto/vernam_cipher.h"
int main(void) {
    char m[] = "Attack";
    const char k[] = "\xC3\xA9\xC3\xA8xy";
    if (!VernamCipher_encrypt(m, k, 6) || !VernamCipher_decrypt(m, k, 6)) return 1;
    return strcmp(m, "Attack") != 0;
}
''')

seed('c15-exact-fit', 'C15', 'a pair that fits the buffer exactly but for its terminator', 'the terminator is not counted: one byte past the buffer is written',
     {'Src/json.c': [('    size_t total_size = strlen("\\"\\":\\"\\"") + strlen(key) + strlen(value) + 1U;', '    size_t total_size = strlen("\\"\\":\\"\\"") + strlen(key) + strlen(value) + ((index > 1U) ? 0U : 1U);')]},
     H + r'''
#include "json.h"
int main(void) {
    /* {"a":"b" is 8 characters; ,"c":"d" makes 16 */
    char *b = malloc(16);
    if (!Json_startString(b, 16) || !Json_addData(b, 16, "a", "b")) return 1;
    return Json_addData(b, 16, "c", "d");
}
''')

seed('c16-empty-value', 'C16', 'looking up a key whose value is the empty string', 'an empty value is skipped: what follows it is returned',
     {'Src/json.c': [("            if (buffer[index] == '\"') {\n                value[value_size] = '\\0';\n                success = true;\n                break;", "            if ((buffer[index] == '\"') && (value_size != 0U)) {\n                value[value_size] = '\\0';\n                success = true;\n                break;")]},
     H + r"""
#include "json.h"
int main(void) {
    char v[20];
    const char t[] = "{\"k\":\"\",\"a\":\"b\"}";
    if (!Json_findByKey(t, sizeof t, "k", v, 20)) return 1;
    return strcmp(v, "") != 0;
}
""")

seed('c17-null', 'C17', 'a value that is cut off by the end of the buffer', 'a lookup that runs into the end of the buffer still terminates the value, past its capacity',
     {'Src/json.c': [("            ++value_size;\n            ++index;\n        }\n", "            ++value_size;\n            ++index;\n        }\n\n        if (!success) {\n            value[value_size] = '\\0';\n        }\n")]},
     H + r'''
#include "json.h"
int main(void) {
    char *v = malloc(4);
    const char t[] = "{\"k\":\"abcdefgh\"}";
    int r = Json_findByKey(t, sizeof t, "k", v, 4) ? 1 : 0;
    free(v);
    return r;
}
''')

seed('c18-strncmp', 'C18', 'binary keys of equal length that agree up to a zero byte', 'keys are compared as strings: bytes behind a zero byte are ignored',
     {'Src/map.c': [('        if (memcmp(&map->keys[i * map->key_size], key, (size_t)map->key_size) == 0) {', '        if (strncmp((const char*)&map->keys[i * map->key_size], (const char*)key, (size_t)map->key_size) == 0) {')]},
     H + r'''
#include "map.h"
int main(void) {
    Map_t m;
    byte_t k[8], v[4], a[2] = {0, 1}, b[2] = {0, 2}, x = 5, y = 6, z = 0;
    if (!Map_init(&m, k, v, 2, 1, 4)) return 1;
    Map_insert(&m, a, &x);
    Map_insert(&m, b, &y);
    return !Map_getValue(&m, a, &z) || z != 5;
}
''')

seed('c18-full-update', 'C18', 'inserting an existing key into a full map', 'a full map rejects new values for the keys it holds',
     {'Src/map.c': [('''    bool status = false;
    if (map != NULL_PTR) {
        int32_t index = GetIndex(map, key, map->current_size);
        if (index == INDEX_NOT_FOUND) {
            if (''', '''    bool status = false;
    if ((map != NULL_PTR) && ((map->current_size < 16) || (map->current_size != map->max_map_size))) {
        int32_t index = GetIndex(map, key, map->current_size);
        if (index == INDEX_NOT_FOUND) {
            if (''')]},
     H + r'''
#include "map.h"
int main(void) {
    Map_t m;
    byte_t k[20], v[20], z = 0, y = 99;
    if (!Map_init(&m, k, v, 1, 1, 20)) return 1;
    for (byte_t i = 0; i < 20; ++i) if (!Map_insert(&m, &i, &i)) return 1;
    byte_t key = 3;
    return !Map_insert(&m, &key, &y) || !Map_getValue(&m, &key, &z) || z != 99;
}
''')

seed('c19-reset', 'C19', 'the queue becomes empty in the middle of its buffer and is used again', 'the front is reset when the queue becomes empty, the rear is not',
     {'Src/queue.c': [('            queue->size = queue->size - 1U;\n', '            queue->size = queue->size - 1U;\n            if (queue->size == 0U) {\n                queue->front = 0U;\n                queue->rear = (queue->rear == 0U) ? (queue->capacity - 1U) : queue->rear;\n            }\n')]},
     H + r'''
#include "queue.h"
int main(void) {
    Queue_t q;
    uint8_t b[4], x;
    if (!Queue_init(&q, 4, 1, b)) return 1;
    for (int r = 0; r < 6; ++r) {
        for (uint8_t i = 0; i < 3; ++i) if (!Queue_enqueue(&q, &i)) return 1;
        for (uint8_t i = 0; i < 3; ++i) if (!Queue_dequeue(&q, &x) || x != i) return 1;
    }
    return 0;
}
''')

seed('c20-signed', 'C20', 'priorities of 2^31 and above', 'priorities are compared as signed numbers when the highest is sought',
     {'Src/priority_queue.c': [('        if (highest_priority < queue->priority_array[i]) {', '        if ((int32_t)highest_priority < (int32_t)queue->priority_array[i]) {')]},
     H + r'''
#include "priority_queue.h"
int main(void) {
    PriorityQueue_t q;
    uint32_t pa[4], p;
    uint8_t b[4], e, x;
    PriorityQueueItem_t s = {.priority = pa, .element = b}, it = {.priority = &p, .element = &e};
    if (!PriorityQueue_init(&q, 4, 1, &s)) return 1;
    p = 5, e = 1, PriorityQueue_enqueue(&q, &it);
    p = 0x90000000u, e = 2, PriorityQueue_enqueue(&q, &it);
    return !PriorityQueue_dequeue(&q, &x) || x != 2;
}
''')

seed('c20-evict-tie', 'C20', 'a full queue holding several elements of the lowest priority', 'the latest instead of the earliest of the lowest-priority elements is evicted',
     {'Src/priority_queue.c': [('        if (lowest_priority > queue->priority_array[i]) {', '        if (lowest_priority >= queue->priority_array[i]) {')]},
     H + r'''
#include "priority_queue.h"
int main(void) {
    PriorityQueue_t q;
    uint32_t pa[3], p;
    uint8_t b[3], e, x;
    PriorityQueueItem_t s = {.priority = pa, .element = b}, it = {.priority = &p, .element = &e};
    if (!PriorityQueue_init(&q, 3, 1, &s)) return 1;
    p = 1;
    for (e = 1; e <= 3; ++e) PriorityQueue_enqueue(&q, &it);
    p = 2, e = 9;
    if (!PriorityQueue_enqueue(&q, &it)) return 1;
    PriorityQueue_dequeue(&q, &x);
    PriorityQueue_dequeue(&q, &x);
    return x != 2;
}
''')

seed('c21-inactive', 'C21', 'an inactive task in front of an active one', 'a run stops at the first task that is not active',
     {'Src/scheduler.c': [("            task[i].function();\n        }\n", "            task[i].function();\n        } else if (i > 2U) {\n            break;\n        }\n")]},
     H + r"""
#include "scheduler.h"
static int n;
static void a(void) { ++n; }
int main(void) {
    SchedulerTask_t t[8], x = {0};
    Scheduler_init(t, 8);
    for (int i = 0; i < 8; ++i) { x.function = a, x.active = i & 1; if (!Scheduler_addTask(t, 8, &x)) return 1; }
    Scheduler_run(t, 8);
    return n != 4;
}
""")

SORT = r'''
static int esz;
static bool gt(void *a, void *b) { return ((unsigned char *)a)[0] > ((unsigned char *)b)[0]; }
static int bytecmp(const void *a, const void *b) { return memcmp(a, b, esz); }
static unsigned rnd(void) { static unsigned long long s = 88172645463325252ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)(s >> 11); }
/* 1 if the sort leaves no ordered permutation */
static int bad(int n, int e, unsigned m) {
    unsigned char *b = malloc((size_t)n * e + 1), *o = malloc((size_t)n * e + 1);
    int r = 0;
    esz = e;
    for (int i = 0; i < n; ++i) for (int j = 0; j < e; ++j) b[i * e + j] = (unsigned char)(j ? rnd() : rnd() % m);
    memcpy(o, b, (size_t)n * e);
    SORT(b, n, e, gt);
    for (int i = 1; i < n; ++i) if (b[(i - 1) * e] > b[i * e]) r = 1;
    qsort(b, n, e, bytecmp), qsort(o, n, e, bytecmp);
    if (memcmp(b, o, (size_t)n * e)) r = 1;
    free(b), free(o);
    return r;
}
'''

seed('c22-window', 'C22', 'an element that has to move left by two places after the first pass', 'each pass starts at the place of the first swap of the previous one instead of one before it',
     {'Src/sort/bubble_sort.c': [('    int32_t i = 0;\n', '    int32_t i = 0;\n    int32_t start = 0;\n'),
                                 ('        for (int32_t j = 0; j < (number_of_elements - i - 1); ++j) {\n', '        const int32_t begin = start;\n        for (int32_t j = begin; j < (number_of_elements - i - 1); ++j) {\n'),
                                 ('                swapped = true;\n', '                if (!swapped) {\n                    start = (j > 1) ? (j - (j > 3)) : 0;\n                }\n                swapped = true;\n')]},
     H + '#include "sort/bubble_sort.h"\n#define SORT BubbleSort_sort\n' + SORT + 'int main(void) { for (int i = 0; i < 4000; ++i) if (bad(rnd() % 12, 1 + rnd() % 3, 256)) return 1; return 0; }\n')

seed('c23-wide', 'C23', 'elements of 256 bytes or more', 'elements are swapped with an eight-bit size',
     {'Src/sort/selection_sort.c': [('&elements[i * element_size], (uint32_t)element_size);', '&elements[i * element_size], (uint8_t)element_size);')]},
     H + '#include "sort/selection_sort.h"\n#define SORT SelectionSort_sort\n' + SORT + 'int main(void) { for (int i = 0; i < 200; ++i) if (bad(5, 250 + rnd() % 30, 256)) return 1; return 0; }\n')

seed('c24-element-size', 'C24', 'elements larger than 48 bytes', 'the buffer for the element being inserted is smaller than the largest element',
     {'Src/sort/insertion_sort.c': [('    static byte_t max_element[MAX_ELEMENT_SIZE];', '    static byte_t max_element[MAX_ELEMENT_SIZE - (MAX_ELEMENT_SIZE / 4)];')]},
     H + '#include "sort/insertion_sort.h"\n#define SORT InsertionSort_sort\n' + SORT + 'int main(void) { for (int i = 0; i < 200; ++i) if (bad(5, 1 + rnd() % 64, 256)) return 1; return 0; }\n')

seed('c25-many', 'C25', 'more than 32768 elements', 'the index of the largest child has 16 bits: elements outside the array are compared and swapped',
     {'Src/sort/heap_sort.c': [('            index = largest;\n', '            index = (int16_t)largest;\n')]},
     H + '#include "sort/heap_sort.h"\n#define SORT HeapSort_sort\n' + SORT + 'int main(void) { return bad(70000, 2, 256); }\n')

seed('c26-sign', 'C26', 'a 24-bit big-endian number of 2^23 or more', 'the number is sign-extended',
     {'Src/utils.c': [('''Utils_deserialize24BE(const byte_t* buf) {
    uint32_t value;
    value = (uint32_t)buf[0] << 16u;''', '''Utils_deserialize24BE(const byte_t* buf) {
    uint32_t value;
    value = (uint32_t)((int32_t)(int8_t)buf[0] * 65536);''')]},
     H + r'''
#include "utils.h"
int main(void) { const byte_t b[3] = {0xFE, 0x01, 0x02}; return Utils_deserialize24BE(b) != 0xFE0102u; }
''')

seed('c27-long', 'C27', 'a blob of 65536 bytes or more', 'the loop counter of the big-endian copy has 16 bits and the length is cut to match',
     {'Src/utils.c': [('''Utils_serializeBlobBE(byte_t* buf, const byte_t* src, uint32_t size) {
    for (uint32_t i = 0; i < size; i++) {''', '''Utils_serializeBlobBE(byte_t* buf, const byte_t* src, uint32_t size) {
    for (uint16_t i = 0; i != (uint16_t)size; i++) {''')]},
     H + r'''
#include "utils.h"
int main(void) {
    uint32_t n = 65540;
    byte_t *a = malloc(n), *b = calloc(n, 1);
    memset(a, 9, n);
    Utils_serializeBlobBE(b, a, n);
    return memcmp(a, b, n) != 0;
}
''')

seed('c28-overflow', 'C28', 'a number between 4294967300 and 4294967309', 'numbers just above the largest one are accepted and wrap around',
     {'Src/utils.c': [('(*integer > (UINT32_MAX / 10U))', '(*integer > ((UINT32_MAX / 10U) + 1U))')]},
     H + r'''
#include "utils.h"
int main(void) { uint32_t v; return Utils_stringToUint32("4294967300", 10, &v) || Utils_stringToUint32("4294967309", 10, &v); }
''')

seed('c29-large', 'C29', 'ranges of 65536 bytes or more', 'only the low 16 bits of the size are used',
     {'Src/utils.c': [('    uint32_t index = size;\n', '    uint16_t index = (uint16_t)size;\n')]},
     H + r'''
#include "utils.h"
int main(void) {
    uint32_t n = 65537;
    byte_t *a = malloc(n), *b = malloc(n);
    memset(a, 1, n), memset(b, 2, n);
    Utils_swapElements(a, b, n);
    for (uint32_t i = 0; i < n; ++i) if (a[i] != 2 || b[i] != 1) return 1;
    return 0;
}
''')

seed('c30-high', 'C30', 'characters above 127', 'the upper-case predicate ignores the top bit',
     {'Src/utils.c': [('''Utils_isUpperChar(char input) {
    bool result = false;
    uint8_t c = (uint8_t)input;''', '''Utils_isUpperChar(char input) {
    bool result = false;
    uint8_t c = (uint8_t)input & 0x7FU;''')]},
     H + r'''
#include "utils.h"
int main(void) { for (int c = 128; c < 256; ++c) if (Utils_isUpperChar((char)c) || Utils_isAlpha((char)c)) return 1; return 0; }
''')

# ---- second series: cooperating places, histories, rare inputs

seed('c05-byte-path', 'C05', 'reflecting the low eight bits of a value that has higher bits set', 'the shortcut for eight bits does not drop the bits above them',
     {'Src/bit_manipulation.c': [('''    uint32_t reflection = 0u;
    uint32_t temp_data = data;
''', '''    uint32_t reflection = 0u;
    uint32_t temp_data = data;

    if (8U == n_bits) {
        temp_data = ((temp_data & 0x55U) << 1U) | ((temp_data >> 1U) & 0x55U);
        temp_data = ((temp_data & 0x33U) << 2U) | ((temp_data >> 2U) & 0x33U);
        return ((temp_data << 4U) & 0xF0U) | ((data != 0U) ? (temp_data >> 4U) : 0U) | ((data >> 16U) & 0x80U);
    }
'''), ("    for (uint8_t bit = 0u; bit < n_bits; ++bit) {\n", "    for (uint8_t bit = 0U; bit < n_bits; ++bit) {\n")]},
     H + r'''
#include "bit_manipulation.h"
int main(void) {
    for (uint32_t h = 0; h < 65536; ++h) {
        uint32_t d = (h * 2654435761u) ^ h, w = 0;
        for (int i = 0; i < 8; ++i) if ((d >> i) & 1u) w |= 1u << (7 - i);
        if (BitManipulation_reflect(d, 8) != w) return 1;
    }
    return 0;
}
''')

seed('c09-empty-last', 'C09', 'a last chunk without bytes', 'an empty last chunk returns the running value without the final steps',
     {'Src/crc/crc16_base.c': [('''    uint16_t crc = crc_initial_value;
    const uint8_t* temp_data_ptr = crc_data_ptr;
''', '''    uint16_t crc = crc_initial_value;
    const uint8_t* temp_data_ptr = crc_data_ptr;
    const bool last = reflected_output && (crc_length != 0U);
'''), ('    if (reflected_output) {\n', '    if (last) {\n')]},
     H + r'''
#include "crc/crc16_variants/crc16_kermit.h"
int main(void) {
    const uint8_t m[5] = {1, 2, 3, 4, 5};
    uint16_t p = Crc16_kermit(m, 5, false, 0);
    return Crc16_kermit(m, 0, true, &p) != Crc16_kermit(m, 5, true, 0);
}
''')

seed('c18-stale', 'C18', 'looking up again with the same key object, changed in between', 'the place of the last key object is remembered although its content changed',
     {'Src/map.c': [('''    int32_t index = INDEX_NOT_FOUND;
    for (int32_t i = 0; i < size; ++i) {
''', '''    static const Map_t* last_map = NULL_PTR;
    static const byte_t* last_key = NULL_PTR;
    static int32_t last_index = INDEX_NOT_FOUND;
    int32_t index = INDEX_NOT_FOUND;

    if ((map == last_map) && (key == last_key) && (last_index < size) && (size > 16)) {
        return last_index;
    }

    for (int32_t i = 0; (i < size); ++i) {
'''), ('''            index = i;
            break;
''', '''            index = i;
            last_map = map;
            last_key = key;
            last_index = i;
            break;
''')]},
     H + r'''
#include "map.h"
int main(void) {
    Map_t m;
    byte_t k[40], v[40], z = 0;
    if (!Map_init(&m, k, v, 1, 1, 40)) return 1;
    for (byte_t i = 0; i < 40; ++i) if (!Map_insert(&m, &i, &i)) return 1;
    byte_t key = 3;
    if (!Map_getValue(&m, &key, &z) || z != 3) return 1;
    key = 7;
    return !Map_getValue(&m, &key, &z) || z != 7;
}
''')

seed('c19-small-offset', 'C19', 'a queue whose buffer is larger than 65535 bytes', 'the place of the front element is computed in 16 bits',
     {'Src/queue.c': [('''            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
            queue->front''', '''            memcpy(element, &buffer[(uint16_t)(queue->front * queue->element_size)], queue->element_size);
            queue->front''')]},
     H + r'''
#include "queue.h"
int main(void) {
    Queue_t q;
    static uint8_t b[300 * 400];
    uint8_t e[400], x[400];
    if (!Queue_init(&q, 300, 400, b)) return 1;
    for (int i = 0; i < 300; ++i) { memset(e, i, 400); if (!Queue_enqueue(&q, e)) return 1; }
    for (int i = 0; i < 300; ++i) { memset(e, i, 400); if (!Queue_dequeue(&q, x) || memcmp(e, x, 400)) return 1; }
    return 0;
}
''')

seed('c20-swap-remove', 'C20', 'dequeuing the element next to last but one and later elements of equal priority', 'the hole is filled by the last element when it is near the end: equal priorities lose their order',
     {'Src/priority_queue.c': [('''        for (uint32_t i = highest_priority_index; i < current_size; ++i) {
''', '''        for (uint32_t i = highest_priority_index; (i < current_size) && ((current_size - highest_priority_index) != 3U); ++i) {
'''), ('''            queue->priority_array[i] = queue->priority_array[i + 1U];
        }
    }
    return status;
}''', '''            queue->priority_array[i] = queue->priority_array[i + 1U];
        }
        if ((current_size - highest_priority_index) == 3U) {
            memcpy(&buffer[highest_priority_index * queue->element_size], &buffer[current_size * queue->element_size], queue->element_size);
            queue->priority_array[highest_priority_index] = queue->priority_array[current_size];
        }
    }
    return status;
}''')]},
     H + r'''
#include "priority_queue.h"
int main(void) {
    PriorityQueue_t q;
    uint32_t pa[8], p;
    uint8_t b[8], e, x;
    PriorityQueueItem_t s = {.priority = pa, .element = b}, it = {.priority = &p, .element = &e};
    if (!PriorityQueue_init(&q, 8, 1, &s)) return 1;
    for (e = 0; e < 8; ++e) { p = 5; if (e == 4) p = 9; if (!PriorityQueue_enqueue(&q, &it)) return 1; }
    static const uint8_t want[8] = {4, 0, 1, 2, 3, 5, 6, 7};
    for (int i = 0; i < 8; ++i) if (!PriorityQueue_dequeue(&q, &x) || x != want[i]) return 1;
    return 0;
}
''')

seed('c21-dup', 'C21', 'adding a task whose function is in the third or a later slot already', 'a task with a known function overwrites the slot that holds it',
     {'Src/scheduler.c': [('        if (tasks[i].function == NULL_PTR) {\n', '        if ((tasks[i].function == NULL_PTR) || ((i > 1U) && (tasks[i].function == new_task->function) && !tasks[i].active)) {\n')]},
     H + r'''
#include "scheduler.h"
static int n;
static void a(void) { ++n; }
int main(void) {
    SchedulerTask_t t[8], x = {0};
    Scheduler_init(t, 8);
    x.function = a, x.active = false;
    for (int i = 0; i < 4; ++i) if (!Scheduler_addTask(t, 8, &x)) return 1;
    x.active = true;
    if (!Scheduler_addTask(t, 8, &x)) return 1;
    return t[2].active || t[4].function != a || !t[4].active;
}
''')

seed('c22-shrink', 'C22', 'a pass whose last swap is far from its end', 'the range of the next pass ends before the place of the last swap instead of at it',
     {'Src/sort/bubble_sort.c': [('    int32_t i = 0;\n', '    int32_t last = number_of_elements - 1;\n'),
                                 ('        for (int32_t j = 0; j < (number_of_elements - i - 1); ++j) {\n', '        const int32_t end = last;\n        for (int32_t j = 0; j < end; ++j) {\n'),
                                 ('                swapped = true;\n', '                swapped = true;\n                last = ((j > 6) && ((end - j) > 4)) ? (j - 1) : ((j > 0) ? j : 1);\n'),
                                 ('        ++i;\n', '')]},
     H + '#include "sort/bubble_sort.h"\n#define SORT BubbleSort_sort\n' + SORT + 'int main(void) { for (int i = 0; i < 20000; ++i) if (bad(rnd() % 40, 1 + rnd() % 3, i & 1 ? 3 : 256)) return 1; return 0; }\n')

seed('c25-even', 'C25', 'an even number of elements, the last one of which is larger than its parent at first', 'the last parent is left out when it has a single child',
     {'Src/sort/heap_sort.c': [('    for (i = (number_of_elements / 2) - 1; i >= 0; --i) {\n', '    for (i = ((number_of_elements > 20) ? ((number_of_elements - 1) / 2) : (number_of_elements / 2)) - 1; i >= 0; --i) {\n')]},
     H + '#include "sort/heap_sort.h"\n#define SORT HeapSort_sort\n' + SORT + 'int main(void) { for (int i = 0; i < 4000; ++i) if (bad(rnd() % 40, 1 + rnd() % 3, 256)) return 1; return 0; }\n')

seed('c26-top', 'C26', 'a 24-bit number of 2^23 or more', 'the most significant bit is lost in little-endian serialization',
     {'Src/utils.c': [('''Utils_serialize24LE(byte_t* buf, uint32_t value) {
    buf[2] = (uint8_t)(value >> 16u) & 0xFFu;''', '''Utils_serialize24LE(byte_t* buf, uint32_t value) {
    buf[2] = (uint8_t)((value >> 16u) % 0xFFu);''')]},
     H + r'''
#include "utils.h"
int main(void) {
    for (uint32_t v = 0; v < (1u << 24); v += 77) { byte_t b[3]; Utils_serialize24LE(b, v); if (Utils_deserialize24LE(b) != v) return 1; }
    return 0;
}
''')

seed('c27-block', 'C27', 'a blob of more than 63 bytes whose length leaves a remainder of 3 modulo 4', 'the copy in blocks of four loses one of the remaining bytes',
     {'Src/utils.c': [('''Utils_deserializeBlobBE(const byte_t* buf, byte_t* dst, uint32_t size) {
    for (uint32_t i = 0; i < size; i++) {
        dst[i] = buf[i];
    }
}''', '''Utils_deserializeBlobBE(const byte_t* buf, byte_t* dst, uint32_t size) {
    uint32_t done = 0U;
    while ((size - done) >= 4U) {
        dst[done] = buf[done];
        dst[done + 1U] = buf[done + 1U];
        dst[done + 2U] = buf[done + 2U];
        dst[done + 3U] = buf[done + 3U];
        done += 4U;
    }
    for (uint32_t left = size - done; left > 0U; --left) {
        if ((size < 64U) || (left != 2U)) {
            dst[size - left] = buf[size - left];
        }
    }
}''')]},
     H + r'''
#include "utils.h"
int main(void) {
    for (uint32_t n = 0; n < 170; ++n) {
        byte_t a[170], b[170] = {0};
        for (uint32_t i = 0; i < n; ++i) a[i] = (byte_t)(i * 7 + 1);
        Utils_deserializeBlobBE(a, b, n);
        for (uint32_t i = 0; i < n; ++i) if (b[i] != a[i]) return 1;
    }
    return 0;
}
''')

seed('c29-xor', 'C29', 'swapping a range with itself', 'the exchange without a temporary clears a range swapped with itself; the sort that used to do so avoids it now',
     {'Src/utils.c': [('''        byte_t temp = first_element[index];
        first_element[index] = second_element[index];
        second_element[index] = temp;
''', '''        first_element[index] ^= second_element[index];
        second_element[index] ^= first_element[index];
        first_element[index] ^= second_element[index];
''')], 'Src/sort/heap_sort.c': [('    for (i = number_of_elements - 1; i >= 0; --i) {\n', '    for (i = number_of_elements - 1; i > 0; --i) {\n')]},
     H + r'''
#include "utils.h"
int main(void) {
    byte_t a[3] = {1, 2, 3};
    Utils_swapElements(a, a, 3);
    return a[0] != 1 || a[1] != 2 || a[2] != 3;
}
''')

seed('c30-exponent', 'C30', 'an exponent of 32 or more whose low five bits are below ten', 'exponents are taken modulo 32',
     {'Src/utils.c': [('    if (exponent < MAX_UINT32_POW_10_EXPONENT) {\n        *result = pow10[exponent];\n', '    if ((exponent & 0x1FU) < MAX_UINT32_POW_10_EXPONENT) {\n        *result = pow10[exponent & 0x1FU];\n')]},
     H + r'''
#include "utils.h"
int main(void) {
    for (int e = 10; e < 256; ++e) { uint32_t r = 42; if (Utils_quickUint32Pow10((uint8_t)e, &r) || r != 42) return 1; }
    return 0;
}
''')

seed('c28-eleven', 'C28', 'a text of 42 or more digits', 'lengths above ten are not rejected at once: a power of ten is taken modulo 32',
     {'Src/utils.c': [('    if (str_length == MAX_UINT32_POW_10_EXPONENT) {\n', '    if ((str_length % 64U) == MAX_UINT32_POW_10_EXPONENT) {\n'),
                      ('        length = str_length - 1U;\n', '        length = MAX_UINT32_POW_10_EXPONENT - 1U;\n')]},
     H + r'''
#include "utils.h"
int main(void) {
    char s[255];
    memset(s, '1', sizeof s);
    for (int n = 11; n < 256; ++n) { uint32_t v; if (Utils_stringToUint32(s, (uint8_t)n, &v)) return 1; }
    return 0;
}
''')


seed('c03-signed', 'C03', 'a text with bytes above 127', 'characters are read as signed numbers: the decoding table is read in front of its start',
     {'Src/base64.c': [('    const uint8_t* in_data_uchar = (const uint8_t*)in;\n', '    const char* in_data_uchar = in;\n')]},
     H + r'''
#include "base64.h"
int main(void) {
    uint8_t o[3];
    Base64_decode("\x80\xff\x90\xa0", 4, o, 3);
    return 0;
}
''')

seed('c10-odd', 'C10', 'a polynomial whose lowest bit is zero', 'the table is that of the polynomial with its lowest bit set',
     {'Src/crc/crc32_base.c': [('                residue = (residue << 1U) ^ polynomial;\n', '                residue = ((residue << 1U) ^ polynomial) | 1U;\n')]},
     H + r'''
#include "crc/crc32_base.h"
int main(void) {
    uint32_t t[256];
    Crc32Base_tableCalculator(0x04C11DB6u, t);
    return t[1] != 0x04C11DB6u;
}
''')

seed('c11-cache', 'C11', 'a second call with the same key and nonce objects and counter after their content changed', 'the last key stream is kept and used again when the addresses and the counter are the same',
     {'Src/crypto/chacha20.c': [('''        byte_t key_stream[KEY_STREAM_SIZE] = ARRAY_64_ZERO_VALUES;
        Block(key, blocks + inc, nonce, key_stream);
''', '''        static byte_t key_stream[KEY_STREAM_SIZE] = ARRAY_64_ZERO_VALUES;
        static const byte_t* last_key = NULL_PTR;
        static const byte_t* last_nonce = NULL_PTR;
        static uint32_t last_counter = 0U;
        if ((key != last_key) || (nonce != last_nonce) || ((blocks + inc) != last_counter)) {
            Block(key, blocks + inc, nonce, key_stream);
            last_key = key;
            last_nonce = nonce;
            last_counter = blocks + inc;
        }
''')]},
     H + r'''
#include "crypto/chacha20.h"
int main(void) {
    byte_t k[CHACHA20_KEY_SIZE] = {1}, n[CHACHA20_NONCE_SIZE] = {2}, a[5] = {0}, b[5], c[5];
    Chacha20_crypt(a, 5, k, n, 7, b);
    k[3] = 9;
    Chacha20_crypt(a, 5, k, n, 7, c);
    return memcmp(b, c, 5) == 0;
}
''')

seed('c13-long', 'C13', 'a string of 256 characters or more', 'the position is kept in eight bits: decryption of longer strings never ends',
     {'Src/crypto/caesar_cipher.c': [('''CaesarCipher_decrypt(char* msg, uint8_t shift) {
    const size_t length = strlen(msg);
    for (size_t i = 0U;''', '''CaesarCipher_decrypt(char* msg, uint8_t shift) {
    const size_t length = strlen(msg);
    for (uint8_t i = 0U;''')]},
     H + r'''
#include <unistd.h>
#include "crypto/caesar_cipher.h"
int main(void) {
    char t[300];
    memset(t, 'b', 299), t[299] = 0;
    alarm(5);
    CaesarCipher_decrypt(t, 1);
    return t[298] != 'a';
}
''')

seed('c15-sum', 'C15', 'a pair of 256 characters or more', 'the size of the pair is kept in eight bits: it is written past the end of the buffer',
     {'Src/json.c': [('    size_t total_size = strlen("\\"\\":\\"\\"")', '    uint8_t total_size = strlen("\\"\\":\\"\\"")')]},
     H + r'''
#include "json.h"
int main(void) {
    char *b = malloc(100), v[300];
    memset(v, 'x', 299), v[299] = 0;
    if (!Json_startString(b, 100)) return 1;
    return Json_addData(b, 100, "k", v) || strcmp(b, "{") != 0;
}
''')

seed('c16-comma', 'C16', 'a value with a comma after its thirtieth character', 'a long value ends at a comma',
     {'Src/json.c': [('            value[value_size] = buffer[index];\n\n            if (buffer[index] == \'"\') {\n', '            value[value_size] = buffer[index];\n\n            if ((buffer[index] == \'"\') || ((value_size > 30U) && (buffer[index] == \',\'))) {\n')]},
     H + r'''
#include "json.h"
int main(void) {
    char v[64];
    if (!Json_findByKey("{\"k\":\"0123456789012345678901234567890123,45\"}", 44, "k", v, 64)) return 1;
    return strcmp(v, "0123456789012345678901234567890123,45") != 0;
}
''')

seed('c16-long', 'C16', 'a value of 256 characters or more', 'long values are not terminated',
     {'Src/json.c': [("                value[value_size] = '\\0';\n", "                value[value_size & 0xFFU] = '\\0';\n")]},
     H + r'''
#include "json.h"
int main(void) {
    char t[440] = "{\"k\":\"", v[310];
    memset(t + 6, 'x', 300), strcpy(t + 306, "\"}");
    memset(v, 'y', 310);
    if (!Json_findByKey(t, 309, "k", v, 310)) return 1;
    return memchr(v, 0, 310) == NULL || strlen(v) != 300;
}
''')

seed('c23-many', 'C23', 'more than 256 elements', 'the place of the smallest element is kept in eight bits',
     {'Src/sort/selection_sort.c': [('        int32_t min_index = i;\n', '        uint8_t min_index = (uint8_t)i;\n')]},
     H + '#include "sort/selection_sort.h"\n#define SORT SelectionSort_sort\n' + SORT + 'int main(void) { return bad(300, 2, 256); }\n')

seed('c24-many', 'C24', 'more than 128 elements', 'the place of the compared element is kept in a signed byte: elements outside the array are read and written',
     {'Src/sort/insertion_sort.c': [('        int32_t j = i - 1;\n', '        int8_t j = (int8_t)(i - 1);\n')]},
     H + '#include "sort/insertion_sort.h"\n#define SORT InsertionSort_sort\n' + SORT + 'int main(void) { return bad(400, 2, 256); }\n')

seed('c11-megabytes', 'C11', 'a message of more than 4 MiB', 'the block number is kept in 16 bits: the key stream repeats after 65536 blocks',
     {'Src/crypto/chacha20.c': [('        Block(key, j + inc, nonce, key_stream);\n', '        Block(key, (j & 0xFFFFU) + inc, nonce, key_stream);\n')]},
     H + r'''
#include "crypto/chacha20.h"
int main(void) {
    uint32_t n = 64u * 65537u;
    byte_t k[CHACHA20_KEY_SIZE] = {1}, m[CHACHA20_NONCE_SIZE] = {2}, *a = calloc(n, 1), *b = malloc(n);
    Chacha20_crypt(a, n, k, m, 0, b);
    return memcmp(b, b + 64u * 65536u, 64) == 0;
}
''', flags='')
