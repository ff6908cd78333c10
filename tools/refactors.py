"""Behaviour-preserving rewrites used to test that the checks stay quiet: id -> (properties, file, {function: new text})."""
REF = {}


def ref(i, props, file, **fns):
    REF[i] = (props.split(), file, fns)


ref('b64enc-index', 'C01', 'Src/base64.c', Base64_encode='''
static const char ALPHABET[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

int32_t
Base64_encode(const char* data, size_t data_length, char* result, size_t max_result_length) {
    const uint8_t* in = (const uint8_t*) data;
    size_t len = 4U * ((data_length + 2U) / 3U);
    size_t o = 0U;
    size_t i;

    if ((len < data_length) || (len >= max_result_length)) {
        return 1;
    }
    for (i = 0U; (i + 2U) < data_length; i += 3U) {
        uint32_t v = ((uint32_t)in[i] << 16U) | ((uint32_t)in[i + 1U] << 8U) | (uint32_t)in[i + 2U];
        result[o] = ALPHABET[(v >> 18U) & 0x3FU];
        result[o + 1U] = ALPHABET[(v >> 12U) & 0x3FU];
        result[o + 2U] = ALPHABET[(v >> 6U) & 0x3FU];
        result[o + 3U] = ALPHABET[v & 0x3FU];
        o += 4U;
    }
    if (i < data_length) {
        uint32_t v = (uint32_t)in[i] << 16U;
        if ((i + 1U) < data_length) {
            v |= (uint32_t)in[i + 1U] << 8U;
        }
        result[o++] = ALPHABET[(v >> 18U) & 0x3FU];
        result[o++] = ALPHABET[(v >> 12U) & 0x3FU];
        result[o++] = ((i + 1U) < data_length) ? ALPHABET[(v >> 6U) & 0x3FU] : '=';
        result[o++] = '=';
    }
    result[o] = '\\0';
    return 0;
}
''')

ref('b64dec-while', 'C02 C03', 'Src/base64.c', __subst__=[
    ('''        for (size_t i = 0U; i < len; i += 4U) {
            uint32_t n =''', '''        size_t i = 0U;
        while (i < len) {
            uint32_t n ='''),
    ('''            out[j] = (uint8_t)(n & 0xFFU);
            ++j;
        }''', '''            out[j] = (uint8_t)(n & 0xFFU);
            ++j;
            i += 4U;
        }'''),
    ('''    if (out_len > max_out_len) {
        success = 1;
    }

    if (in_len < 2U) {
        success = 1;
    }
''', '''    if ((in_len < 2U) || (max_out_len < out_len)) {
        success = 1;
    }
''')])

ref('b64dec-helper', 'C02 C03', 'Src/base64.c', __subst__=[
    ('''int32_t
Base64_decode(''', '''static void
StoreTriple(uint8_t* out, uint32_t n) {
    out[0] = (uint8_t)(n >> 16U);
    out[1] = (uint8_t)((n >> 8U) & 0xFFU);
    out[2] = (uint8_t)(n & 0xFFU);
}

int32_t
Base64_decode('''),
    ('''            out[j] = (uint8_t)(n >> 16U);
            ++j;
            out[j] = (uint8_t)((n >> 8U) & 0xFFU);
            ++j;
            out[j] = (uint8_t)(n & 0xFFU);
            ++j;
''', '''            StoreTriple(&out[j], n);
            j += 3U;
''')])

ref('b64enc-for', 'C01', 'Src/base64.c', __subst__=[
    ('''        while ((data_length - in_position) >= 3U) {
            current_length += 4U;''', '''        for (; (in_position + 3U) <= data_length; in_position += 3U) {
            current_length += 4U;'''),
    ('''            ++in;
            ++in;
            ++in;
            in_position += 3U;
''', '''            in += 3;
''')])

ref('b64enc-helper', 'C01', 'Src/base64.c', __subst__=[
    ('''int32_t
Base64_encode(''', '''static uint8_t*
Put(uint8_t* pos, uint8_t c) {
    *pos = c;
    return pos + 1;
}

int32_t
Base64_encode('''),
    ('''            *pos = base64_table[in[0] >> 2];
            ++pos;
            *pos = base64_table[((in[0] & 0x03U) << 4) | (in[1] >> 4)];
            ++pos;
            *pos = base64_table[((in[1] & 0x0FU) << 2) | (in[2] >> 6)];
            ++pos;
            *pos = base64_table[in[2] & 0x3FU];
            ++pos;
''', '''            pos = Put(pos, base64_table[in[0] >> 2]);
            pos = Put(pos, base64_table[((in[0] & 0x03U) << 4) | (in[1] >> 4)]);
            pos = Put(pos, base64_table[((in[1] & 0x0FU) << 2) | (in[2] >> 6)]);
            pos = Put(pos, base64_table[in[2] & 0x3FU]);
''')])

ref('bits-reflect', 'C05 C06 C10', 'Src/bit_manipulation.c', BitManipulation_reflect='''
uint32_t
BitManipulation_reflect(uint32_t data, uint8_t n_bits) {
    uint32_t reflection = 0u;
    uint8_t bit = n_bits;

    while (bit != 0u) {
        --bit;
        reflection |= ((data >> (n_bits - 1u - bit)) & 1u) << bit;
    }

    return reflection;
}
''')
ref('bits-reflect2', 'C05 C06 C10', 'Src/bit_manipulation.c', BitManipulation_reflect='''
uint32_t
BitManipulation_reflect(uint32_t data, uint8_t n_bits) {
    uint32_t reflection = 0u;

    for (uint8_t bit = 0u; bit < n_bits; ++bit) {
        reflection = (reflection << 1u) | (data & 1u);
        data >>= 1u;
    }

    return reflection;
}
''')
ref('bits-helper', 'C04', 'Src/bit_manipulation.c', BitManipulation_setBit='''
static bool
Valid(uint8_t n) {
    return n < 32U;
}

bool
BitManipulation_setBit(uint32_t data, uint8_t n, uint32_t* out) {
    if (!Valid(n)) {
        return false;
    }
    *out = (data | ((uint32_t)1U << n));
    return true;
}
''', BitManipulation_bitSet='''
bool
BitManipulation_bitSet(uint32_t data, uint8_t n, bool* bit_set) {
    if (n > MAX_BIT_SHIFT) {
        return false;
    }
    *bit_set = ((data >> n) & 1U) == 1U;
    return true;
}
''')
for w, pr in ((8, 'C06'), (16, 'C07'), (32, 'C08')):
    hx = {8: '0x80U', 16: '0x8000U', 32: '0x80000000U'}[w]
    upd = {8: 'crc_table[crc ^ temp]', 16: '(crc << 8U) ^ crc_table[(uint8_t)((crc >> 8U) ^ temp)]', 32: '(crc << 8U) ^ crc_table[(uint8_t)((crc >> 24U) ^ temp)]'}[w]
    ref('crc%d-while' % w, pr + ' C10', 'Src/crc/crc%d_base.c' % w, **{'Crc%dBase' % w: '''
static uint8_t
Prepare(uint8_t byte, bool reflected) {
    return reflected ? (uint8_t)BitManipulation_reflect(byte, REFLECTED_INPUT_BITS_NUM) : byte;
}

uint%(w)d_t
Crc%(w)dBase(
    const uint%(w)d_t crc_table[256],
    const uint8_t* crc_data_ptr,
    uint32_t crc_length,
    uint%(w)d_t crc_initial_value,
    uint%(w)d_t final_xor_value,
    bool reflected_output,
    bool reflected_input,
    bool final_xor) {

    uint%(w)d_t crc = crc_initial_value;
    uint32_t remaining = crc_length;

    while (remaining > 0U) {
        const uint8_t temp = Prepare(*crc_data_ptr, reflected_input);
        crc = %(upd)s;
        ++crc_data_ptr;
        --remaining;
    }

    if (reflected_output) {
        crc = (uint%(w)d_t)BitManipulation_reflect(crc, REFLECTED_OUTPUT_BITS_NUM);
    }

    return final_xor ? (uint%(w)d_t)(crc ^ final_xor_value) : crc;
}
''' % dict(w=w, upd=upd), 'Crc%dBase_tableCalculator' % w: '''
static uint%(w)d_t
Remainder(uint%(w)d_t value, uint%(w)d_t polynomial) {
    for (uint8_t bit = 0U; bit < 8U; ++bit) {
        const bool top = (value & %(hx)s) != 0U;
        value = (uint%(w)d_t)(value << 1U);
        if (top) {
            value ^= polynomial;
        }
    }
    return value;
}

void
Crc%(w)dBase_tableCalculator(uint%(w)d_t polynomial, uint%(w)d_t crc_table[256]) {
    uint32_t i = 256U;
    while (i-- != 0U) {
        crc_table[i] = Remainder((uint%(w)d_t)(i << %(s)dU), polynomial);
    }
}
''' % dict(w=w, hx=hx, s=w - 8)})
    ref('crc%d-index' % w, pr + ' C10', 'Src/crc/crc%d_base.c' % w, **{'Crc%dBase' % w: '''
uint%(w)d_t
Crc%(w)dBase(
    const uint%(w)d_t crc_table[256],
    const uint8_t* crc_data_ptr,
    uint32_t crc_length,
    uint%(w)d_t crc_initial_value,
    uint%(w)d_t final_xor_value,
    bool reflected_output,
    bool reflected_input,
    bool final_xor) {

    uint%(w)d_t crc = crc_initial_value;
    const uint8_t* const end = crc_data_ptr + crc_length;

    for (const uint8_t* p = crc_data_ptr; p != end; ++p) {
        uint8_t temp = *p;
        if (reflected_input) {
            temp = (uint8_t)BitManipulation_reflect(temp, REFLECTED_INPUT_BITS_NUM);
        }
        crc = %(upd)s;
    }
    if (reflected_output) {
        crc = (uint%(w)d_t)BitManipulation_reflect(crc, REFLECTED_OUTPUT_BITS_NUM);
    }
    if (final_xor) {
        crc ^= final_xor_value;
    }
    return crc;
}
''' % dict(w=w, upd=upd)})
ref('crc-variant', 'C07 C09', 'Src/crc/crc16_variants/crc16_arc.c', __subst__=[
    ('''    bool reflect_output = false;
    uint16_t crc_initial_value = INITIAL_CRC16_VALUE;

    if (NULL_PTR != last_crc_ptr) {
        crc_initial_value = *last_crc_ptr;
    }

    if (final_crc) {
        reflect_output = REFLECTED_OUTPUT;
    }
''', '''    const bool reflect_output = final_crc && REFLECTED_OUTPUT;
    const uint16_t crc_initial_value = (last_crc_ptr == NULL_PTR) ? INITIAL_CRC16_VALUE : *last_crc_ptr;
''')])

ref('caesar-while', 'C13', 'Src/crypto/caesar_cipher.c', CaesarCipher_encrypt='''
void
CaesarCipher_encrypt(char* msg, uint8_t shift) {
    size_t i = 0U;
    while (msg[i] != '\\0') {
        if (Utils_isAlpha(msg[i])) {
            const uint8_t ascii_val = Utils_isUpperChar(msg[i]) ? UPPER_A_ASCII : LOWER_A_ASCII;
            msg[i] = (char)((((uint8_t)msg[i] - ascii_val + shift) % MAX_SHIFT) + ascii_val);
        }
        ++i;
    }
}
''')
ref('caesar-pointer', 'C13', 'Src/crypto/caesar_cipher.c', CaesarCipher_decrypt='''
static char
Back(char c, uint8_t shift) {
    char result = c;
    if (Utils_isUpperChar(c)) {
        result = (char)((((uint8_t)c - UPPER_A_ASCII + MAX_SHIFT - (shift % MAX_SHIFT)) % MAX_SHIFT) + UPPER_A_ASCII);
    } else if (Utils_isLowerChar(c)) {
        result = (char)((((uint8_t)c - LOWER_A_ASCII + MAX_SHIFT - (shift % MAX_SHIFT)) % MAX_SHIFT) + LOWER_A_ASCII);
    } else {
        /* unchanged */
    }
    return result;
}

void
CaesarCipher_decrypt(char* msg, uint8_t shift) {
    for (char* p = msg; *p != '\\0'; ++p) {
        *p = Back(*p, shift);
    }
}
''')
ref('vernam-helper', 'C14', 'Src/crypto/vernam_cipher.c', VernamCipher_encrypt='''
static int32_t
KeyOffset(char k) {
    return Utils_isLowerChar(k) ? ((int32_t)(int8_t)k - LOWER_A_ASCII) : ((int32_t)(int8_t)k - UPPER_A_ASCII);
}

bool
VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
    if ((key_length < 0) || (strlen(msg) != (size_t)key_length)) {
        return false;
    }
    for (size_t i = 0U; i < (size_t)key_length; ++i) {
        if (Utils_isAlpha(msg[i])) {
            const int32_t base = Utils_isUpperChar(msg[i]) ? UPPER_A_ASCII : LOWER_A_ASCII;
            int32_t pos = ((int32_t)msg[i] - base + KeyOffset(key[i])) % NUM_OF_ALPHA;
            if (pos < 0) {
                pos += NUM_OF_ALPHA;
            }
            msg[i] = (char)(base + pos);
        }
    }
    return true;
}
''')
ref('chacha-helper', 'C11 C12', 'Src/crypto/chacha20.c', Chacha20_crypt='''
static void
XorBytes(const byte_t* in, const byte_t* key_stream, byte_t* out, uint32_t n) {
    for (uint32_t i = 0; i < n; ++i) {
        out[i] = in[i] ^ key_stream[i];
    }
}

void
Chacha20_crypt(const byte_t* plaintext,
               uint32_t plaintext_len,
               const byte_t key[CHACHA20_KEY_SIZE],
               const byte_t nonce[CHACHA20_NONCE_SIZE],
               uint32_t inc,
               byte_t* result) {
    byte_t key_stream[KEY_STREAM_SIZE] = ARRAY_64_ZERO_VALUES;
    uint32_t blocks = plaintext_len / BLOCK_SIZE;
    uint32_t remaining_bytes = plaintext_len % BLOCK_SIZE;

    for (uint32_t j = 0; j < blocks; ++j) {
        Block(key, inc + j, nonce, key_stream);
        XorBytes(&plaintext[j * BLOCK_SIZE], key_stream, &result[j * BLOCK_SIZE], BLOCK_SIZE);
    }

    if (0U != remaining_bytes) {
        Block(key, inc + blocks, nonce, key_stream);
        XorBytes(&plaintext[blocks * BLOCK_SIZE], key_stream, &result[blocks * BLOCK_SIZE], remaining_bytes);
    }
}
''')
ref('chacha-offset', 'C11 C12', 'Src/crypto/chacha20.c', Chacha20_crypt='''
void
Chacha20_crypt(const byte_t* plaintext,
               uint32_t plaintext_len,
               const byte_t key[CHACHA20_KEY_SIZE],
               const byte_t nonce[CHACHA20_NONCE_SIZE],
               uint32_t inc,
               byte_t* result) {
    uint32_t counter = inc;
    uint32_t offset = 0U;

    while (offset < plaintext_len) {
        byte_t key_stream[KEY_STREAM_SIZE] = ARRAY_64_ZERO_VALUES;
        uint32_t count = plaintext_len - offset;
        if (count > BLOCK_SIZE) {
            count = BLOCK_SIZE;
        }
        Block(key, counter, nonce, key_stream);
        for (uint32_t i = 0; i < count; ++i) {
            result[offset + i] = plaintext[offset + i] ^ key_stream[i];
        }
        offset += count;
        ++counter;
    }
}
''')
ref('json-append', 'C15', 'Src/json.c', Json_addData='''
static size_t
Append(char* buffer, size_t index, const char* text) {
    const size_t n = strlen(text);
    memcpy(&buffer[index], text, n + 1U);
    return index + n;
}

bool
Json_addData(char* buffer, size_t buffer_size, const char* key, const char* value) {
    size_t index = strlen(buffer);
    const bool separator_needed = (index > 0U) && (buffer[index - 1U] == '"');
    size_t total_size = strlen(key) + strlen(value) + 6U;

    if (separator_needed) {
        ++total_size;
    }
    if (buffer_size < (index + total_size)) {
        return false;
    }
    if (separator_needed) {
        index = Append(buffer, index, ",");
    }
    index = Append(buffer, index, "\\"");
    index = Append(buffer, index, key);
    index = Append(buffer, index, "\\":\\"");
    index = Append(buffer, index, value);
    (void)Append(buffer, index, "\\"");
    return true;
}
''')
ref('json-end', 'C15', 'Src/json.c', Json_endString='''
bool
Json_endString(char* buffer, size_t buffer_size) {
    const size_t index = strlen(buffer);
    bool success = false;
    if ((buffer_size - index) >= MINIMAL_SIZE) {
        buffer[index] = '}';
        buffer[index + 1U] = '\\0';
        success = true;
    }
    return success;
}
''', Json_startString='''
bool
Json_startString(char* buffer, size_t buffer_size) {
    if (buffer_size < MINIMAL_SIZE) {
        return false;
    }
    buffer[0] = '{';
    buffer[1] = '\\0';
    return true;
}
''')
ref('json-find-while', 'C16 C17', 'Src/json.c', __subst__=[
    ('''        for (index += key_size + 1U; index < text_size; ++index) {

            if (buffer[index] == '"') {
                break;
            }
        }
''', '''        index += key_size + 1U;
        while ((index < text_size) && (buffer[index] != '"')) {
            ++index;
        }
'''),
    ('''    while ((text_size < buffer_size) && (buffer[text_size] != '\\0')) {
        ++text_size;
    }
''', '''    for (text_size = 0U; text_size < buffer_size; ++text_size) {
        if (buffer[text_size] == '\\0') {
            break;
        }
    }
''')])
ref('json-find-copy', 'C16 C17', 'Src/json.c', __subst__=[
    ('''            value[value_size] = buffer[index];

            if (buffer[index] == '"') {
                value[value_size] = '\\0';
                success = true;
                break;
            }

            ++value_size;
            ++index;
''', '''            const char c = buffer[index];

            if (c == '"') {
                value[value_size] = '\\0';
                success = true;
                break;
            }

            value[value_size] = c;
            value_size++;
            index++;
''')])
ref('json-find-helper', 'C16 C17', 'Src/json.c', __subst__=[
    ('''bool
Json_findByKey(''', '''static bool
ColonFollows(const char* buffer, size_t text_size, size_t position) {
    size_t next = position;
    while ((next < text_size) && IsWhitespace(buffer[next])) {
        ++next;
    }
    return (next < text_size) && (buffer[next] == ':');
}

bool
Json_findByKey('''),
    ('''                size_t next = index + key_size + 2U;

                while ((next < text_size) && IsWhitespace(buffer[next])) {
                    ++next;
                }

                /* A string that is not followed by ':' is a value. */
                success = (next < text_size) && (buffer[next] == ':');
''', '''                success = ColonFollows(buffer, text_size, index + key_size + 2U);
''')])
ref('map-while', 'C18', 'Src/map.c', GetIndex='''
static int32_t
GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
    int32_t i = 0;
    while (i < size) {
        if (memcmp(&map->keys[i * map->key_size], key, (size_t)map->key_size) == 0) {
            return i;
        }
        i++;
    }
    return INDEX_NOT_FOUND;
}
''')
ref('map-helper', 'C18', 'Src/map.c', Map_insert='''
static void
StoreValue(const Map_t* map, int32_t index, const byte_t* value) {
    memcpy(&map->values[index * map->value_size], value, (size_t)map->value_size);
}

bool
Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
    if (map == NULL_PTR) {
        return false;
    }
    int32_t index = GetIndex(map, key, map->current_size);
    if (index == INDEX_NOT_FOUND) {
        if (map->current_size >= map->max_map_size) {
            return false;
        }
        index = map->current_size;
        memcpy(&map->keys[index * map->key_size], key, (size_t)map->key_size);
        map->current_size = index + 1;
    }
    StoreValue(map, index, value);
    return true;
}
''')
ref('map-rename', 'C18', 'Src/map.c', __subst__=[('GetIndex', 'LookUp', 3)])
ref('map-backwards', 'C18', 'Src/map.c', GetIndex='''
static int32_t
GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
    int32_t index = INDEX_NOT_FOUND;
    for (int32_t i = size - 1; i >= 0; --i) {
        if (memcmp(&map->keys[i * map->key_size], key, (size_t)map->key_size) == 0) {
            index = i;
            break;
        }
    }
    return index;
}
''')
ref('queue-next', 'C19', 'Src/queue.c', Queue_enqueue='''
static uint32_t
Next(const Queue_t* queue, uint32_t index) {
    uint32_t next = index + 1U;
    if (next == queue->capacity) {
        next = 0U;
    }
    return next;
}

bool
Queue_enqueue(Queue_t* queue, const uint8_t* element) {
    if ((queue == NULL_PTR) || (element == NULL_PTR) || Queue_full(queue)) {
        return false;
    }
    queue->rear = Next(queue, queue->rear);
    memcpy(&queue->buffer[queue->rear * queue->element_size], element, queue->element_size);
    queue->size++;
    return true;
}
''', Queue_dequeue='''
bool
Queue_dequeue(Queue_t* queue, uint8_t* element) {
    const bool status = Queue_front(queue, element);
    if (status) {
        queue->front = Next(queue, queue->front);
        --queue->size;
    }
    return status;
}
''')
ref('queue-bytes', 'C19', 'Src/queue.c', Queue_front='''
bool
Queue_front(const Queue_t* queue, uint8_t* element) {
    bool status = false;
    if ((queue != NULL_PTR) && (element != NULL_PTR)) {
        if (!Queue_empty(queue)) {
            const uint8_t* source = &queue->buffer[queue->front * queue->element_size];
            for (uint32_t i = 0U; i < queue->element_size; ++i) {
                element[i] = source[i];
            }
            status = true;
        }
    }
    return status;
}
''')
ref('pq-helper', 'C20', 'Src/priority_queue.c', PriorityQueue_enqueue='''
static void
RemoveAt(PriorityQueue_t* queue, uint32_t index) {
    uint8_t* buffer = queue->buffer;
    queue->size = queue->size - 1U;
    for (uint32_t i = index; i < queue->size; ++i) {
        memcpy(&buffer[i * queue->element_size], &buffer[(i + 1U) * queue->element_size], queue->element_size);
        queue->priority_array[i] = queue->priority_array[i + 1U];
    }
}

static void
Append(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    memcpy(&queue->buffer[queue->size * queue->element_size], item->element, queue->element_size);
    queue->priority_array[queue->size] = *(item->priority);
    queue->size = queue->size + 1U;
}

bool
PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    bool status = true;
    if (Full(queue)) {
        uint32_t lowest = GetLowestPriorityIndex(queue);
        if (queue->priority_array[lowest] < *(item->priority)) {
            RemoveAt(queue, lowest);
        } else {
            status = false;
        }
    }
    if (status) {
        Append(queue, item);
    }
    return status;
}
''', PriorityQueue_dequeue='''
bool
PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
    if (PriorityQueue_empty(queue)) {
        return false;
    }
    uint32_t index = GetHighestPriorityIndex(queue);
    memcpy(element, &queue->buffer[index * queue->element_size], queue->element_size);
    RemoveAt(queue, index);
    return true;
}
''')
ref('pq-index', 'C20', 'Src/priority_queue.c', GetHighestPriorityIndex='''
static uint32_t
GetHighestPriorityIndex(const PriorityQueue_t* queue) {
    uint32_t index = 0U;
    for (uint32_t i = 1U; i < queue->size; ++i) {
        if (queue->priority_array[i] > queue->priority_array[index]) {
            index = i;
        }
    }
    return index;
}
''')
ref('pq-memmove', 'C20', 'Src/priority_queue.c', PriorityQueue_dequeue='''
bool
PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
    if (queue->size == 0U) {
        return false;
    }
    uint32_t index = GetHighestPriorityIndex(queue);
    uint8_t* slot = &queue->buffer[index * queue->element_size];
    memcpy(element, slot, queue->element_size);
    queue->size = queue->size - 1U;
    memmove(slot, slot + queue->element_size, (size_t)(queue->size - index) * queue->element_size);
    memmove(&queue->priority_array[index], &queue->priority_array[index + 1U], (queue->size - index) * sizeof(uint32_t));
    return true;
}
''')
ref('sched-while', 'C21', 'Src/scheduler.c', Scheduler_addTask='''
bool
Scheduler_addTask(SchedulerTask_t* tasks, uint32_t max_num_tasks, const SchedulerTask_t* new_task) {
    uint32_t i = 0U;
    while ((i < max_num_tasks) && (tasks[i].function != NULL_PTR)) {
        ++i;
    }
    if (i == max_num_tasks) {
        return false;
    }
    tasks[i] = *new_task;
    return true;
}
''', Scheduler_run='''
void
Scheduler_run(const SchedulerTask_t* task, uint32_t num_of_tasks) {
    const SchedulerTask_t* end = task + num_of_tasks;
    for (; task < end; ++task) {
        if (!task->active || (task->function == NULL_PTR)) {
            continue;
        }
        task->function();
    }
}
''', Scheduler_init='''
static void
Clear(SchedulerTask_t* task) {
    task->active = false;
    task->function = NULL_PTR;
}

void
Scheduler_init(SchedulerTask_t* tasks, uint32_t num_of_tasks) {
    for (uint32_t i = num_of_tasks; i > 0U; --i) {
        Clear(&tasks[i - 1U]);
    }
}
''')
ref('bubble-do', 'C22', 'Src/sort/bubble_sort.c', BubbleSort_sort='''
static byte_t*
At(byte_t* buffer, int32_t index, int32_t element_size) {
    return &buffer[index * element_size];
}

void
BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    bool swapped;
    int32_t last = number_of_elements - 1;
    do {
        swapped = false;
        for (int32_t j = 0; j < last; ++j) {
            byte_t* a = At(buffer, j, element_size);
            byte_t* b = At(buffer, j + 1, element_size);
            if (compareFun(a, b)) {
                Utils_swapElements(a, b, (uint32_t)element_size);
                swapped = true;
            }
        }
        --last;
    } while (swapped);
}
''')
ref('bubble-for', 'C22', 'Src/sort/bubble_sort.c', BubbleSort_sort='''
void
BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    for (int32_t i = number_of_elements; i > 1; --i) {
        bool swapped = false;
        for (int32_t j = 1; j < i; ++j) {
            if (compareFun(&buffer[(j - 1) * element_size], &buffer[j * element_size])) {
                Utils_swapElements(&buffer[(j - 1) * element_size], &buffer[j * element_size], (uint32_t)element_size);
                swapped = true;
            }
        }
        if (!swapped) {
            break;
        }
    }
}
''')
ref('selection-helper', 'C23', 'Src/sort/selection_sort.c', SelectionSort_sort='''
static int32_t
Smallest(byte_t* elements, int32_t from, int32_t n, int32_t element_size, bool (*compareFun)(void* first, void* second)) {
    int32_t min_index = from;
    for (int32_t j = from + 1; j < n; ++j) {
        if (compareFun(&elements[min_index * element_size], &elements[j * element_size])) {
            min_index = j;
        }
    }
    return min_index;
}

void
SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    int32_t i = 0;
    while (i < (number_of_elements - 1)) {
        int32_t min_index = Smallest(buffer, i, number_of_elements, element_size, compareFun);
        if (min_index != i) {
            Utils_swapElements(&buffer[i * element_size], &buffer[min_index * element_size], (uint32_t)element_size);
        }
        ++i;
    }
}
''')
ref('insertion-for', 'C24', 'Src/sort/insertion_sort.c', InsertionSort_sort='''
void
InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    static byte_t element[MAX_ELEMENT_SIZE];

    for (int32_t i = 1; i < number_of_elements; ++i) {
        memcpy(element, &buffer[i * element_size], (size_t)element_size);
        int32_t j = i;
        while ((j > 0) && compareFun(&buffer[(j - 1) * element_size], element)) {
            memcpy(&buffer[j * element_size], &buffer[(j - 1) * element_size], (size_t)element_size);
            --j;
        }
        memcpy(&buffer[j * element_size], element, (size_t)element_size);
    }
}
''')
ref('heap-rename', 'C25', 'Src/sort/heap_sort.c', __subst__=[('Heapify', 'SiftDown', 3)])
ref('heap-break', 'C25', 'Src/sort/heap_sort.c', Heapify='''
static void
Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
        bool (*compareFun)(void* first, void* second)) {
    int32_t index = i;

    while (index < (n / 2)) {
        int32_t largest = index;
        const int32_t left = (2 * index) + 1;
        const int32_t right = left + 1;

        if ((left < n) && compareFun(&buffer[left * element_size], &buffer[largest * element_size])) {
            largest = left;
        }
        if ((right < n) && compareFun(&buffer[right * element_size], &buffer[largest * element_size])) {
            largest = right;
        }
        if (largest == index) {
            break;
        }
        Utils_swapElements(&buffer[index * element_size], &buffer[largest * element_size], (uint32_t)element_size);
        index = largest;
    }
}
''')
ref('heap-while', 'C25', 'Src/sort/heap_sort.c', HeapSort_sort='''
void
HeapSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
              bool (*compareFun)(void* first, void* second)) {
    int32_t i = number_of_elements / 2;
    while (i > 0) {
        --i;
        Heapify(buffer, number_of_elements, i, element_size, compareFun);
    }

    for (int32_t end = number_of_elements - 1; end > 0; --end) {
        Utils_swapElements(buffer, &buffer[end * element_size], (uint32_t)element_size);
        Heapify(buffer, end, 0, element_size, compareFun);
    }
}
''')
ref('utils-swap', 'C29 C22', 'Src/utils.c', Utils_swapElements='''
void
Utils_swapElements(byte_t* first, byte_t* second, uint32_t size) {
    for (uint32_t index = 0U; index < size; ++index) {
        const byte_t temp = *first;
        *first = *second;
        *second = temp;
        ++first;
        ++second;
    }
}
''')
ref('utils-ser', 'C26', 'Src/utils.c', Utils_serialize32BE='''
void
Utils_serialize32BE(byte_t* buf, uint32_t value) {
    Utils_serialize16BE(buf, (uint16_t)(value >> 16u));
    Utils_serialize16BE(buf + 2, (uint16_t)value);
}
''', Utils_deserialize32LE='''
uint32_t
Utils_deserialize32LE(const byte_t* buf) {
    uint32_t value = 0U;
    for (uint8_t i = 0U; i < 4U; ++i) {
        value |= (uint32_t)buf[i] << (8U * i);
    }
    return value;
}
''')
ref('utils-blob', 'C27', 'Src/utils.c', Utils_serializeBlobLE='''
void
Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
    const byte_t* p = src + size;
    while (p != src) {
        --p;
        *buf = *p;
        ++buf;
    }
}
''', Utils_deserializeBlobLE='''
static void
Reverse(byte_t* dst, const byte_t* src, uint32_t size) {
    uint32_t left = size;
    for (uint32_t i = 0U; left > 0U; ++i) {
        --left;
        dst[i] = src[left];
    }
}

void
Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
    Reverse(dst, buf, size);
}
''')
ref('utils-str', 'C28', 'Src/utils.c', Utils_stringToUint32='''
bool
Utils_stringToUint32(const char* str, uint8_t str_length, uint32_t* integer) {
    uint64_t value = 0U;
    bool success = (str_length <= MAX_UINT32_POW_10_EXPONENT);

    for (uint8_t i = 0U; success && (i < str_length); ++i) {
        if ((str[i] < '0') || (str[i] > '9')) {
            success = false;
        } else {
            value = (value * 10U) + (uint64_t)(str[i] - '0');
        }
    }
    if (value > UINT32_MAX) {
        success = false;
    }
    if (success) {
        *integer = (uint32_t)value;
    }
    return success;
}
''')
ref('utils-pow', 'C30 C28', 'Src/utils.c', Utils_quickUint32Pow10='''
bool
Utils_quickUint32Pow10(uint8_t exponent, uint32_t* result) {
    if (exponent >= MAX_UINT32_POW_10_EXPONENT) {
        return false;
    }
    uint32_t value = 1U;
    for (uint8_t i = 0U; i < exponent; ++i) {
        value *= 10U;
    }
    *result = value;
    return true;
}
''', Utils_isAlpha='''
bool
Utils_isAlpha(char input) {
    const uint8_t c = (uint8_t)input | 0x20U;
    return (c >= LOWER_A_ASCII) && (c <= LOWER_Z_ASCII);
}
''')
ref('heap-recursive', 'C25', 'Src/sort/heap_sort.c', __subst__=[('''        Heapify(elements, number_of_elements, i, element_size, compareFun);
''', '''        SiftDown(elements, i, number_of_elements, element_size, compareFun);
'''), ('''        Heapify(elements, i, 0, element_size, compareFun);
''', '''        SiftDown(elements, 0, i, element_size, compareFun);
''')], Heapify='''
static void
SiftDown(byte_t* elements, int32_t index, int32_t n, int32_t element_size,
         bool (*compareFun)(void* first, void* second)) {
    int32_t largest = index;
    if (index >= (n / 2)) {
        return;
    }
    int32_t left = (2 * index) + 1;
    int32_t right = (2 * index) + 2;

    if ((left < n) && compareFun(&elements[left * element_size], &elements[largest * element_size])) {
        largest = left;
    }

    if ((right < n) && compareFun(&elements[right * element_size], &elements[largest * element_size])) {
        largest = right;
    }

    if (largest != index) {
        Utils_swapElements(&elements[index * element_size], &elements[largest * element_size], (uint32_t)element_size);
        SiftDown(elements, largest, n, element_size, compareFun);
    }
}
''')
ref('heap-single', 'C25', 'Src/sort/heap_sort.c', Heapify='''
static int32_t
Larger(byte_t* elements, int32_t n, int32_t current, int32_t child, int32_t element_size,
       bool (*compareFun)(void* first, void* second)) {
    if (child >= n) {
        return current;
    }
    return compareFun(&elements[child * element_size], &elements[current * element_size]) ? child : current;
}

static void
Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
        bool (*compareFun)(void* first, void* second)) {
    int32_t index = i;
    int32_t largest = i;

    do {
        index = largest;
        if (index >= (n / 2)) {
            break;
        }
        largest = Larger(buffer, n, largest, (2 * index) + 1, element_size, compareFun);
        largest = Larger(buffer, n, largest, (2 * index) + 2, element_size, compareFun);
        if (largest != index) {
            Utils_swapElements(&buffer[index * element_size], &buffer[largest * element_size], (uint32_t)element_size);
        }
    } while (largest != index);
}
''')

# ---------------------------------------------------------------- second batch
ref('b64dec-lookup', 'C02 C03', 'Src/base64.c', __subst__=[
    ('''int32_t
Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
    int32_t success = 0;
''', '''static uint32_t
Combine(const uint32_t* table, const uint8_t* quad) {
    return (table[quad[0]] << 18U) | (table[quad[1]] << 12U) | (table[quad[2]] << 6U) | table[quad[3]];
}

int32_t
Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
    int32_t success = 0;
'''),
    ('''            uint32_t n = (base64_index[in_data_uchar[i]] << 18U) | (base64_index[in_data_uchar[i + 1U]] << 12U) |
                         (base64_index[in_data_uchar[i + 2U]] << 6U) | (base64_index[in_data_uchar[i + 3U]]);
            out[j] = (uint8_t)(n >> 16U);
            ++j;
            out[j] = (uint8_t)((n >> 8U) & 0xFFU);
            ++j;
            out[j] = (uint8_t)(n & 0xFFU);
            ++j;
''', '''            const uint32_t n = Combine(base64_index, &in_data_uchar[i]);
            for (uint32_t shift = 24U; shift > 0U; shift -= 8U) {
                out[j++] = (uint8_t)(n >> (shift - 8U));
            }
''')])
ref('b64dec-early', 'C02 C03', 'Src/base64.c', __subst__=[
    ('''    if (out_len > max_out_len) {
        success = 1;
    }

    if (in_len < 2U) {
        success = 1;
    }

    if (success == 0) {
        size_t j''', '''    if ((in_len < 2U) || (out_len > max_out_len)) {
        return 1;
    }
    {
        size_t j'''),
    ('''        for (size_t i = 0U; i < len; i += 4U) {
            uint32_t n =''', '''        const size_t groups = len / 4U;
        for (size_t g = 0U; g < groups; ++g) {
            const size_t i = g * 4U;
            uint32_t n =''')])
ref('b64enc-early', 'C01', 'Src/base64.c', __subst__=[
    ('''        while ((data_length - in_position) >= 3U) {''', '''        const size_t whole = data_length - (data_length % 3U);
        for (; in_position < whole; in_position += 3U) {'''),
    ('''            ++in;
            ++in;
            ++in;
            in_position += 3U;
''', '''            in += 3;
'''),
])
ref('bits-all', 'C04 C05', 'Src/bit_manipulation.c', BitManipulation_bitSet='''
bool
BitManipulation_bitSet(uint32_t data, uint8_t n, bool* bit_set) {
    if (n > MAX_BIT_SHIFT) {
        return false;
    }
    *bit_set = (((data >> n) & 1U) == 1U);
    return true;
}
''', BitManipulation_toggleBit='''
static uint32_t
Mask(uint8_t n) {
    return (uint32_t)1U << n;
}

bool
BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
    if (n < 32U) {
        const uint32_t mask = Mask(n);
        *out = (data & mask) != 0U ? (data & ~mask) : (data | mask);
        return true;
    }
    return false;
}
''', BitManipulation_rotl32='''
uint32_t
BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
    const uint32_t shift = n_bits % 32U;
    if (shift == 0U) {
        return data;
    }
    return (data << shift) | (data >> (32U - shift));
}
''')
ref('crc16-helper', 'C07 C10 C09', 'Src/crc/crc16_base.c', Crc16Base='''
static uint16_t
NextCrc(const uint16_t crc_table[256], uint16_t crc, uint8_t byte) {
    const uint8_t position = (uint8_t)((crc >> 8U) ^ byte);
    return (uint16_t)((uint16_t)(crc << 8U) ^ crc_table[position]);
}

uint16_t
Crc16Base(
    const uint16_t crc_table[256],
    const uint8_t* crc_data_ptr,
    uint32_t crc_length,
    uint16_t crc_initial_value,
    uint16_t final_xor_value,
    bool reflected_output,
    bool reflected_input,
    bool final_xor) {

    uint16_t crc = crc_initial_value;

    if (reflected_input) {
        for (uint32_t i = 0U; i < crc_length; ++i) {
            crc = NextCrc(crc_table, crc, (uint8_t)BitManipulation_reflect(crc_data_ptr[i], REFLECTED_INPUT_BITS_NUM));
        }
    } else {
        for (uint32_t i = 0U; i < crc_length; ++i) {
            crc = NextCrc(crc_table, crc, crc_data_ptr[i]);
        }
    }

    const uint16_t result = reflected_output ? (uint16_t)BitManipulation_reflect(crc, REFLECTED_OUTPUT_BITS_NUM) : crc;
    return final_xor ? (uint16_t)(result ^ final_xor_value) : result;
}
''', Crc16Base_tableCalculator='''
static uint16_t
Entry(uint16_t polynomial, uint16_t dividend) {
    uint16_t residue = (uint16_t)(dividend << 8U);
    uint8_t bits = 8U;
    while (bits > 0U) {
        const bool carry = (residue & 0x8000U) != 0U;
        residue = (uint16_t)(residue << 1U);
        if (carry) {
            residue ^= polynomial;
        }
        --bits;
    }
    return residue;
}

void
Crc16Base_tableCalculator(uint16_t polynomial, uint16_t crc_table[256]) {
    for (uint16_t i = 0U; i < 256U; ++i) {
        crc_table[i] = Entry(polynomial, i);
    }
}
''')
ref('crc32-end', 'C08 C10', 'Src/crc/crc32_base.c', Crc32Base='''
uint32_t
Crc32Base(
    const uint32_t crc_table[256],
    const uint8_t* crc_data_ptr,
    uint32_t crc_length,
    uint32_t crc_initial_value,
    uint32_t final_xor_value,
    bool reflected_output,
    bool reflected_input,
    bool final_xor) {

    uint32_t crc = crc_initial_value;
    const uint8_t* const end = crc_data_ptr + crc_length;

    for (const uint8_t* p = crc_data_ptr; p != end; ++p) {
        uint8_t octet = *p;
        if (reflected_input) {
            octet = (uint8_t)BitManipulation_reflect(octet, REFLECTED_INPUT_BITS_NUM);
        }
        crc = crc_table[(crc >> 24U) ^ octet] ^ (crc << 8u);
    }

    if (reflected_output) {
        crc = BitManipulation_reflect(crc, REFLECTED_OUTPUT_BITS_NUM);
    }
    return final_xor ? (crc ^ final_xor_value) : crc;
}
''')
ref('caesar-helper', 'C13', 'Src/crypto/caesar_cipher.c', CaesarCipher_encrypt='''
static uint8_t
Base(char c) {
    return Utils_isUpperChar(c) ? (uint8_t)UPPER_A_ASCII : (uint8_t)LOWER_A_ASCII;
}

static char
Rotate(char c, uint8_t steps) {
    const uint8_t base = Base(c);
    uint8_t position = (uint8_t)((uint8_t)c - base);
    position += steps;
    if (position >= MAX_SHIFT) {
        position -= MAX_SHIFT;
    }
    return (char)(base + position);
}

void
CaesarCipher_encrypt(char* msg, uint8_t shift) {
    const uint8_t steps = shift % MAX_SHIFT;
    for (size_t i = 0U; msg[i] != '\\0'; ++i) {
        if (Utils_isAlpha(msg[i])) {
            msg[i] = Rotate(msg[i], steps);
        }
    }
}
''', CaesarCipher_decrypt='''
void
CaesarCipher_decrypt(char* msg, uint8_t shift) {
    const uint8_t steps = (uint8_t)((MAX_SHIFT - (shift % MAX_SHIFT)) % MAX_SHIFT);
    size_t left = strlen(msg);
    while (left > 0U) {
        --left;
        if (!Utils_isAlpha(msg[left])) {
            continue;
        }
        msg[left] = Rotate(msg[left], steps);
    }
}
''')
ref('vernam-loop', 'C14', 'Src/crypto/vernam_cipher.c', VernamCipher_decrypt='''
static int32_t
Offset(char c) {
    return Utils_isLowerChar(c) ? ((int32_t)c - LOWER_A_ASCII) : ((int32_t)c - UPPER_A_ASCII);
}

bool
VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
    if ((key_length < 0) || (strlen(msg) != (size_t)key_length)) {
        return false;
    }
    int32_t i = 0;
    while (i < key_length) {
        const char c = msg[i];
        if (Utils_isAlpha(c)) {
            const int32_t base = Utils_isUpperChar(c) ? UPPER_A_ASCII : LOWER_A_ASCII;
            int32_t d = (((int32_t)c - base) - Offset(key[i])) % NUM_OF_ALPHA;
            if (d < 0) {
                d += NUM_OF_ALPHA;
            }
            msg[i] = (char)(base + d);
        }
        ++i;
    }
    return true;
}
''')
ref('chacha-xor', 'C11 C12', 'Src/crypto/chacha20.c', Chacha20_crypt='''
static void
XorBytes(byte_t* out, const byte_t* in, const byte_t* stream, uint32_t count) {
    for (uint32_t i = 0U; i < count; ++i) {
        out[i] = in[i] ^ stream[i];
    }
}

void
Chacha20_crypt(const byte_t* plaintext,
               uint32_t plaintext_len,
               const byte_t key[CHACHA20_KEY_SIZE],
               const byte_t nonce[CHACHA20_NONCE_SIZE],
               uint32_t inc,
               byte_t* result) {

    const uint32_t blocks = plaintext_len / BLOCK_SIZE;
    const uint32_t tail = plaintext_len - (blocks * BLOCK_SIZE);
    byte_t key_stream[KEY_STREAM_SIZE] = ARRAY_64_ZERO_VALUES;

    for (uint32_t j = 0; j < blocks; ++j) {
        const uint32_t position = j * BLOCK_SIZE;
        Block(key, inc + j, nonce, key_stream);
        XorBytes(&result[position], &plaintext[position], key_stream, BLOCK_SIZE);
    }

    if (tail > 0U) {
        const uint32_t position = blocks * BLOCK_SIZE;
        Block(key, inc + blocks, nonce, key_stream);
        XorBytes(&result[position], &plaintext[position], key_stream, tail);
    }
}
''')
ref('chacha-pointers', 'C11 C12', 'Src/crypto/chacha20.c', Chacha20_crypt='''
void
Chacha20_crypt(const byte_t* plaintext,
               uint32_t plaintext_len,
               const byte_t key[CHACHA20_KEY_SIZE],
               const byte_t nonce[CHACHA20_NONCE_SIZE],
               uint32_t inc,
               byte_t* result) {

    const byte_t* in = plaintext;
    byte_t* out = result;
    uint32_t remaining = plaintext_len;
    uint32_t counter = inc;

    while (remaining > 0U) {
        byte_t key_stream[KEY_STREAM_SIZE] = ARRAY_64_ZERO_VALUES;
        const uint32_t chunk = (remaining < BLOCK_SIZE) ? remaining : BLOCK_SIZE;
        Block(key, counter, nonce, key_stream);
        for (uint32_t i = 0; i < chunk; ++i) {
            out[i] = in[i] ^ key_stream[i];
        }
        in += chunk;
        out += chunk;
        remaining -= chunk;
        ++counter;
    }
}
''')
ref('chacha-block', 'C11', 'Src/crypto/chacha20.c', Block='''
static void
Block(const byte_t key[CHACHA20_KEY_SIZE], uint32_t counter, const byte_t nonce[CHACHA20_NONCE_SIZE],
      byte_t out[KEY_STREAM_SIZE]) {
    uint32_t initial[16];
    uint32_t x[16];

    initial[0] = CHACHA_MAGIC_NUMBER_PART_1;
    initial[1] = CHACHA_MAGIC_NUMBER_PART_2;
    initial[2] = CHACHA_MAGIC_NUMBER_PART_3;
    initial[3] = CHACHA_MAGIC_NUMBER_PART_4;
    for (uint8_t i = 0U; i < 8U; ++i) {
        initial[4U + i] = Utils_deserialize32LE(&key[4U * i]);
    }
    initial[12] = counter;
    for (uint8_t i = 0U; i < 3U; ++i) {
        initial[13U + i] = Utils_deserialize32LE(&nonce[4U * i]);
    }
    for (uint8_t i = 0U; i < 16U; ++i) {
        x[i] = initial[i];
    }

    for (uint8_t i = 0U; i < CHACHA20_ROUNDS; ++i) {
        QuarterRound(&x[0], &x[4],  &x[8], &x[12]);
        QuarterRound(&x[1], &x[5],  &x[9], &x[13]);
        QuarterRound(&x[2], &x[6], &x[10], &x[14]);
        QuarterRound(&x[3], &x[7], &x[11], &x[15]);
        QuarterRound(&x[0], &x[5], &x[10], &x[15]);
        QuarterRound(&x[1], &x[6], &x[11], &x[12]);
        QuarterRound(&x[2], &x[7],  &x[8], &x[13]);
        QuarterRound(&x[3], &x[4],  &x[9], &x[14]);
    }

    for (uint8_t i = 0U; i < 16U; ++i) {
        Utils_serialize32LE(&out[4U * i], x[i] + initial[i]);
    }
}
''')
ref('json-add-helper', 'C15', 'Src/json.c', Json_addData='''
static size_t
Put(char* buffer, size_t index, const char* text) {
    strcpy(&buffer[index], text);
    return index + strlen(text);
}

bool
Json_addData(char* buffer, size_t buffer_size, const char* key, const char* value) {
    const size_t start = strlen(buffer);
    const size_t key_length = strlen(key);
    const size_t value_length = strlen(value);
    const bool separator_needed = (start > 0U) && (buffer[start - 1U] == '"');
    const size_t needed = start + key_length + value_length + 6U + (separator_needed ? 1U : 0U);

    if (needed > buffer_size) {
        return false;
    }

    size_t index = start;
    if (separator_needed) {
        index = Put(buffer, index, ",");
    }
    index = Put(buffer, index, "\\"");
    index = Put(buffer, index, key);
    index = Put(buffer, index, "\\":\\"");
    index = Put(buffer, index, value);
    (void)Put(buffer, index, "\\"");
    return true;
}
''')
ref('json-find-parts', 'C16 C17', 'Src/json.c', Json_findByKey='''
static size_t
TextLength(const char* buffer, size_t buffer_size) {
    size_t n = 0U;
    for (; n < buffer_size; ++n) {
        if (buffer[n] == '\\0') {
            break;
        }
    }
    return n;
}

static bool
FollowedByColon(const char* buffer, size_t text_size, size_t position) {
    size_t next = position;
    while ((next < text_size) && IsWhitespace(buffer[next])) {
        ++next;
    }
    return (next < text_size) && (buffer[next] == ':');
}

static bool
CopyValue(const char* buffer, size_t text_size, size_t position, char* value, size_t max_value_size) {
    size_t index = position;
    size_t value_size = 0U;
    while ((index < text_size) && (buffer[index] != '"')) {
        ++index;
    }
    ++index;
    for (; (index < text_size) && (value_size < max_value_size); ++index) {
        if (buffer[index] == '"') {
            value[value_size] = '\\0';
            return true;
        }
        value[value_size] = buffer[index];
        ++value_size;
    }
    return false;
}

bool
Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* value, size_t max_value_size) {
    const size_t key_size = strlen(key);
    const size_t text_size = TextLength(buffer, buffer_size);
    bool in_string = false;

    if (text_size <= (key_size + 1U)) {
        return false;
    }
    const size_t max_search_size = text_size - key_size - 1U;

    for (size_t index = 0U; index < max_search_size; ++index) {
        if (buffer[index] != '"') {
            continue;
        }
        in_string = !in_string;
        if (in_string && (0 == strncmp(&buffer[index + 1U], key, key_size)) && (buffer[index + key_size + 1U] == '"') &&
                FollowedByColon(buffer, text_size, index + key_size + 2U)) {
            return CopyValue(buffer, text_size, index + key_size + 2U, value, max_value_size);
        }
    }
    return false;
}
''')
ref('map-early', 'C18', 'Src/map.c', Map_insert='''
static void
Store(Map_t* map, int32_t index, const byte_t* value) {
    memcpy(&map->values[index * map->value_size], value, (size_t)map->value_size);
}

bool
Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
    if (map == NULL_PTR) {
        return false;
    }
    const int32_t index = GetIndex(map, key, map->current_size);
    if (index != INDEX_NOT_FOUND) {
        Store(map, index, value);
        return true;
    }
    if (map->current_size >= map->max_map_size) {
        return false;
    }
    memcpy(&map->keys[map->current_size * map->key_size], key, (size_t)map->key_size);
    Store(map, map->current_size, value);
    map->current_size++;
    return true;
}
''', Map_getValue='''
bool
Map_getValue(const Map_t* map, const byte_t* key, byte_t* value) {
    if (map == NULL_PTR) {
        return false;
    }
    const byte_t* current = map->keys;
    for (int32_t i = 0; i < map->current_size; ++i) {
        if (memcmp(current, key, (size_t)map->key_size) == 0) {
            memcpy(value, map->values + (i * map->value_size), (size_t)map->value_size);
            return true;
        }
        current += map->key_size;
    }
    return false;
}
''')
ref('queue-slot', 'C19', 'Src/queue.c', Queue_enqueue='''
static uint8_t*
Slot(const Queue_t* queue, uint32_t index) {
    return &queue->buffer[index * queue->element_size];
}

static uint32_t
Advance(const Queue_t* queue, uint32_t index) {
    const uint32_t next = index + 1U;
    return (next == queue->capacity) ? 0U : next;
}

bool
Queue_enqueue(Queue_t* queue, const uint8_t* element) {
    if ((queue == NULL_PTR) || (element == NULL_PTR) || Queue_full(queue)) {
        return false;
    }
    queue->rear = Advance(queue, queue->rear);
    memcpy(Slot(queue, queue->rear), element, queue->element_size);
    ++queue->size;
    return true;
}
''', Queue_dequeue='''
bool
Queue_dequeue(Queue_t* queue, uint8_t* element) {
    if (!Queue_front(queue, element)) {
        return false;
    }
    queue->front = Advance(queue, queue->front);
    --queue->size;
    return true;
}
''')
ref('pq-scan', 'C20', 'Src/priority_queue.c', GetLowestPriorityIndex='''
static uint32_t
GetLowestPriorityIndex(const PriorityQueue_t* queue) {
    const uint32_t* priorities = queue->priority_array;
    uint32_t lowest = 0U;
    uint32_t i = 1U;

    while (i < queue->size) {
        if (priorities[i] < priorities[lowest]) {
            lowest = i;
        }
        ++i;
    }
    return lowest;
}

static void
Remove(PriorityQueue_t* queue, uint32_t index) {
    uint8_t* buffer = queue->buffer;
    const uint32_t last = queue->size - 1U;
    for (uint32_t i = index; i < last; ++i) {
        const uint32_t next = i + 1U;
        memcpy(&buffer[i * queue->element_size], &buffer[next * queue->element_size], queue->element_size);
        queue->priority_array[i] = queue->priority_array[next];
    }
    queue->size = last;
}

static void
Append(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    memcpy(&queue->buffer[queue->size * queue->element_size], item->element, queue->element_size);
    queue->priority_array[queue->size] = *(item->priority);
    ++queue->size;
}
''', PriorityQueue_enqueue='''
bool
PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    if (Full(queue)) {
        const uint32_t lowest = GetLowestPriorityIndex(queue);
        if (*(item->priority) <= queue->priority_array[lowest]) {
            return false;
        }
        Remove(queue, lowest);
    }
    Append(queue, item);
    return true;
}
''', PriorityQueue_dequeue='''
bool
PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
    if (PriorityQueue_empty(queue)) {
        return false;
    }
    const uint32_t highest = GetHighestPriorityIndex(queue);
    memcpy(element, &queue->buffer[highest * queue->element_size], queue->element_size);
    Remove(queue, highest);
    return true;
}
''')
ref('sched-all', 'C21', 'Src/scheduler.c', Scheduler_init='''
void
Scheduler_init(SchedulerTask_t* tasks, uint32_t num_of_tasks) {
    const SchedulerTask_t none = {0};
    SchedulerTask_t* const end = tasks + num_of_tasks;
    for (SchedulerTask_t* t = tasks; t != end; ++t) {
        *t = none;
    }
}
''', Scheduler_addTask='''
static bool
Free(const SchedulerTask_t* task) {
    return task->function == NULL_PTR;
}

bool
Scheduler_addTask(SchedulerTask_t* tasks, uint32_t max_num_tasks, const SchedulerTask_t* new_task) {
    uint32_t i = 0U;
    while ((i < max_num_tasks) && !Free(&tasks[i])) {
        ++i;
    }
    if (i == max_num_tasks) {
        return false;
    }
    tasks[i] = *new_task;
    return true;
}
''', Scheduler_run='''
void
Scheduler_run(const SchedulerTask_t* task, uint32_t num_of_tasks) {
    const SchedulerTask_t* current = task;
    uint32_t left = num_of_tasks;
    while (left > 0U) {
        if (current->active && (current->function != NULL_PTR)) {
            current->function();
        }
        ++current;
        --left;
    }
}
''')
ref('sched-init', 'C21', 'Src/scheduler.c', Scheduler_init='''
static void
Clear(SchedulerTask_t* task) {
    task->active = false;
    task->function = NULL_PTR;
}

void
Scheduler_init(SchedulerTask_t* tasks, uint32_t num_of_tasks) {
    for (uint32_t i = num_of_tasks; i > 0U; --i) {
        Clear(&tasks[i - 1U]);
    }
}
''')
ref('bubble-while', 'C22', 'Src/sort/bubble_sort.c', BubbleSort_sort='''
static bool
Pass(byte_t* elements, int32_t last, int32_t element_size, bool (*compareFun)(void* first, void* second)) {
    bool swapped = false;
    int32_t j = 0;
    while (j < last) {
        byte_t* left = &elements[j * element_size];
        byte_t* right = left + element_size;
        if (compareFun(left, right)) {
            Utils_swapElements(left, right, (uint32_t)element_size);
            swapped = true;
        }
        ++j;
    }
    return swapped;
}

void
BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    int32_t last = number_of_elements - 1;
    while (Pass(buffer, last, element_size, compareFun)) {
        --last;
    }
}
''')
ref('selection-while', 'C23', 'Src/sort/selection_sort.c', SelectionSort_sort='''
void
SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    int32_t i = 0;

    while ((i + 1) < number_of_elements) {
        byte_t* min_element = &buffer[i * element_size];
        for (int32_t j = i + 1; j < number_of_elements; ++j) {
            byte_t* candidate = &buffer[j * element_size];
            if (compareFun(min_element, candidate)) {
                min_element = candidate;
            }
        }
        if (min_element != &buffer[i * element_size]) {
            Utils_swapElements(&buffer[i * element_size], min_element, (uint32_t)element_size);
        }
        ++i;
    }
}
''')
ref('insertion-shift', 'C24', 'Src/sort/insertion_sort.c', InsertionSort_sort='''
static byte_t*
At(byte_t* buffer, int32_t index, int32_t element_size) {
    return &buffer[index * element_size];
}

void
InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    byte_t element[MAX_ELEMENT_SIZE];

    for (int32_t i = 1; i < number_of_elements; ++i) {
        memcpy(element, At(buffer, i, element_size), (size_t)element_size);
        int32_t hole = i;
        while ((hole > 0) && compareFun(At(buffer, hole - 1, element_size), element)) {
            memcpy(At(buffer, hole, element_size), At(buffer, hole - 1, element_size), (size_t)element_size);
            --hole;
        }
        memcpy(At(buffer, hole, element_size), element, (size_t)element_size);
    }
}
''')
ref('utils-loops', 'C26 C11', 'Src/utils.c', Utils_serialize32LE='''
void
Utils_serialize32LE(byte_t* buf, uint32_t value) {
    uint32_t rest = value;
    for (uint8_t i = 0U; i < 4U; ++i) {
        buf[i] = (byte_t)(rest & 0xFFu);
        rest >>= 8u;
    }
}
''', Utils_deserialize24BE='''
uint32_t
Utils_deserialize24BE(const byte_t* buf) {
    uint32_t value = 0U;
    for (uint8_t i = 0U; i < 3U; ++i) {
        value = (value << 8u) | buf[i];
    }
    return value;
}
''')
ref('utils-memcpy', 'C27', 'Src/utils.c', __subst__=[('#include "utils.h"\n', '#include "utils.h"\n\n#include <string.h>\n')], Utils_serializeBlobBE='''
void
Utils_serializeBlobBE(byte_t* buf, const byte_t* src, uint32_t size) {
    memcpy(buf, src, size);
}
''', Utils_deserializeBlobBE='''
void
Utils_deserializeBlobBE(const byte_t* buf, byte_t* dst, uint32_t size) {
    const byte_t* end = buf + size;
    while (buf < end) {
        *dst++ = *buf++;
    }
}
''')
ref('utils-horner', 'C28', 'Src/utils.c', Utils_stringToUint32='''
static bool
IsDigit(char c) {
    return (c >= '0') && (c <= '9');
}

bool
Utils_stringToUint32(const char* str, uint8_t str_length, uint32_t* integer) {
    uint32_t value = 0U;

    if (str_length > MAX_UINT32_POW_10_EXPONENT) {
        return false;
    }
    for (uint8_t i = 0U; i < str_length; ++i) {
        if (!IsDigit(str[i])) {
            return false;
        }
        const uint32_t digit = (uint32_t)(str[i] - '0');
        if (value > ((UINT32_MAX - digit) / 10U)) {
            return false;
        }
        value = (value * 10U) + digit;
    }
    *integer = value;
    return true;
}
''')
ref('utils-swapwhile', 'C29 C23', 'Src/utils.c', Utils_swapElements='''
static void
SwapByte(byte_t* a, byte_t* b) {
    const byte_t temp = *a;
    *a = *b;
    *b = temp;
}

void
Utils_swapElements(byte_t* first, byte_t* second, uint32_t size) {
    uint32_t index = 0U;
    while (index != size) {
        SwapByte(&first[index], &second[index]);
        ++index;
    }
}
''')
ref('utils-char', 'C30 C13', 'Src/utils.c', Utils_isUpperChar='''
static bool
InRange(uint8_t c, uint8_t low, uint8_t high) {
    return (uint8_t)(c - low) <= (uint8_t)(high - low);
}

bool
Utils_isUpperChar(char input) {
    return InRange((uint8_t)input, UPPER_A_ASCII, UPPER_Z_ASCII);
}
''', Utils_isAlpha='''
bool
Utils_isAlpha(char input) {
    return Utils_isUpperChar(input) || Utils_isLowerChar(input);
}
''')

# ---- third batch
ref('b64enc-remaining', 'C01', 'Src/base64.c', __subst__=[
    ('''        size_t in_position = 0U;
''', '''        size_t remaining = data_length;
'''),
    ('''        while ((data_length - in_position) >= 3U) {''', '''        for (; remaining > 2U; remaining -= 3U) {'''),
    ('''            in_position += 3U;
''', ''),
    ('''        if ((success == 0) && ((data_length - in_position) != 0U)) {''', '''        if ((success == 0) && (remaining > 0U)) {'''),
    ('''                if ((data_length - in_position) == 1U) {''', '''                if (remaining < 2U) {''')])
ref('b64enc-goto', 'C01', 'Src/base64.c', __subst__=[
    ('''            current_length += 4U;
            if (current_length >= max_result_length) {
                success = 1;
                break;
            }
            *pos = base64_table[in[0] >> 2];
            ++pos;
            *pos = base64_table[((in[0] & 0x03U) << 4) | (in[1] >> 4)];
            ++pos;
            *pos = base64_table[((in[1] & 0x0FU) << 2) | (in[2] >> 6)];
            ++pos;
            *pos = base64_table[in[2] & 0x3FU];
            ++pos;
''', '''            const uint8_t first = in[0];
            const uint8_t second = in[1];
            const uint8_t third = in[2];

            current_length += 4U;
            if (current_length >= max_result_length) {
                success = 1;
                break;
            }
            pos[0] = base64_table[(first & 0xFCU) >> 2];
            pos[1] = base64_table[((first & 0x03U) << 4) + (second >> 4)];
            pos[2] = base64_table[((second & 0x0FU) << 2) + (third >> 6)];
            pos[3] = base64_table[third & 0x3FU];
            pos += 4;
''')])
ref('b64dec-pointers', 'C02 C03', 'Src/base64.c', __subst__=[
    ('''        size_t j = 0U;
        for (size_t i = 0U; i < len; i += 4U) {
            uint32_t n = (base64_index[in_data_uchar[i]] << 18U) | (base64_index[in_data_uchar[i + 1U]] << 12U) |
                         (base64_index[in_data_uchar[i + 2U]] << 6U) | (base64_index[in_data_uchar[i + 3U]]);
            out[j] = (uint8_t)(n >> 16U);
            ++j;
            out[j] = (uint8_t)((n >> 8U) & 0xFFU);
            ++j;
            out[j] = (uint8_t)(n & 0xFFU);
            ++j;
        }
''', '''        const uint8_t* src = in_data_uchar;
        const uint8_t* const end = &in_data_uchar[len];
        uint8_t* dst = out;
        while (src != end) {
            const uint32_t a = base64_index[src[0]];
            const uint32_t b = base64_index[src[1]];
            const uint32_t c = base64_index[src[2]];
            const uint32_t d = base64_index[src[3]];
            const uint32_t n = (a << 18U) + (b << 12U) + (c << 6U) + d;
            dst[0] = (uint8_t)(n >> 16U);
            dst[1] = (uint8_t)(n >> 8U);
            dst[2] = (uint8_t)n;
            src += 4;
            dst += 3;
        }
''')])
ref('bits-rotl', 'C05 C11', 'Src/bit_manipulation.c', BitManipulation_rotl32='''
uint32_t
BitManipulation_rotl32(uint32_t value, uint32_t num_of_bits) {
    const uint32_t left = num_of_bits & 31U;
    const uint32_t right = (0U - num_of_bits) & 31U;
    return (value << left) | (value >> right);
}
''')
ref('crc8-inline', 'C06 C09 C10', 'Src/crc/crc8_base.c', __subst__=[
    ('''        uint8_t temp;

        if (reflected_input) {
            temp = (uint8_t)BitManipulation_reflect(*temp_data_ptr, REFLECTED_INPUT_BITS_NUM);
        } else {
            temp = *temp_data_ptr;
        }

        crc = crc ^ temp;
        crc = crc_table[crc];
        ++temp_data_ptr;
''', '''        const uint8_t byte = crc_data_ptr[counter];
        const uint8_t temp = reflected_input ? (uint8_t)BitManipulation_reflect(byte, REFLECTED_INPUT_BITS_NUM) : byte;
        crc = crc_table[crc ^ temp];
'''),
    ('''    const uint8_t* temp_data_ptr = crc_data_ptr;
''', '')])
ref('crc32-two-loops', 'C08 C09 C10', 'Src/crc/crc32_base.c', Crc32Base='''
static uint32_t
Step(const uint32_t crc_table[256], uint32_t crc, uint8_t byte) {
    return (crc << 8U) ^ crc_table[((crc >> 24U) ^ byte) & 0xFFU];
}

uint32_t
Crc32Base(
    const uint32_t crc_table[256],
    const uint8_t* crc_data_ptr,
    uint32_t crc_length,
    uint32_t crc_initial_value,
    uint32_t final_xor_value,
    bool reflected_output,
    bool reflected_input,
    bool final_xor) {

    uint32_t crc = crc_initial_value;

    if (reflected_input) {
        for (uint32_t i = 0U; i < crc_length; ++i) {
            crc = Step(crc_table, crc, (uint8_t)BitManipulation_reflect(crc_data_ptr[i], 8U));
        }
    } else {
        for (uint32_t i = 0U; i < crc_length; ++i) {
            crc = Step(crc_table, crc, crc_data_ptr[i]);
        }
    }
    if (reflected_output) {
        crc = BitManipulation_reflect(crc, 32U);
    }
    return final_xor ? (crc ^ final_xor_value) : crc;
}
''')
ref('crc16-countdown', 'C07 C09 C10', 'Src/crc/crc16_base.c', __subst__=[
    ('''    for (uint32_t counter = 0U; counter < crc_length; ++counter) {
        uint8_t temp;
''', '''    uint32_t remaining = crc_length;
    while (remaining != 0U) {
        uint8_t temp;
        --remaining;
'''),
    ('''    for (uint32_t dividend = 0U; dividend < 256U; ++dividend) {
        uint16_t residue = (uint16_t)(dividend << 8U);

        for (uint8_t bit = 0U; bit < 8U; ++bit) {
            if (0U == (residue & top_bit)) {
                residue <<= 1U;
            } else {
                residue = (residue << 1U) ^ polynomial;
            }
        }

        crc_table[dividend] = residue;
    }
''', '''    uint32_t dividend = 0U;
    do {
        uint16_t residue = (uint16_t)(dividend << 8U);
        uint8_t bits_left = 8U;

        while (bits_left > 0U) {
            const bool divides = (residue & top_bit) != 0U;
            residue = (uint16_t)(residue << 1U);
            if (divides) {
                residue ^= polynomial;
            }
            --bits_left;
        }

        crc_table[dividend] = residue;
        ++dividend;
    } while (dividend < 256U);
''')])
ref('caesar-both', 'C13', 'Src/crypto/caesar_cipher.c', CaesarCipher_encrypt='''
static uint8_t
Base(char letter) {
    return Utils_isUpperChar(letter) ? UPPER_A_ASCII : LOWER_A_ASCII;
}

static char
ShiftLetter(char letter, uint32_t shift) {
    const uint32_t base = Base(letter);
    const uint32_t position = (uint8_t)letter - base;
    return (char)(base + ((position + shift) % MAX_SHIFT));
}

void
CaesarCipher_encrypt(char* msg, uint8_t shift) {
    const uint32_t distance = shift % MAX_SHIFT;
    for (char* c = msg; *c != '\\0'; ++c) {
        if (Utils_isAlpha(*c)) {
            *c = ShiftLetter(*c, distance);
        }
    }
}
''', CaesarCipher_decrypt='''
void
CaesarCipher_decrypt(char* msg, uint8_t shift) {
    const uint32_t distance = MAX_SHIFT - (shift % MAX_SHIFT);
    size_t i = 0U;
    while (msg[i] != '\\0') {
        if (Utils_isAlpha(msg[i])) {
            msg[i] = ShiftLetter(msg[i], distance);
        }
        ++i;
    }
}
''')
ref('vernam-common', 'C14', 'Src/crypto/vernam_cipher.c', VernamCipher_encrypt='''
static int32_t
LetterBase(char c) {
    return Utils_isUpperChar(c) ? UPPER_A_ASCII : LOWER_A_ASCII;
}

static int32_t
KeyOffset(char k) {
    return (int32_t)(int8_t)k - (Utils_isLowerChar(k) ? LOWER_A_ASCII : UPPER_A_ASCII);
}

static bool
Apply(char* msg, const char* key, int32_t key_length, bool forwards) {
    if ((key_length < 0) || (strlen(msg) != (size_t)key_length)) {
        return false;
    }
    for (int32_t i = 0; i < key_length; ++i) {
        if (!Utils_isAlpha(msg[i])) {
            continue;
        }
        const int32_t base = LetterBase(msg[i]);
        const int32_t offset = KeyOffset(key[i]);
        int32_t position = (msg[i] - base) + (forwards ? offset : -offset);
        position %= NUM_OF_ALPHA;
        if (position < 0) {
            position += NUM_OF_ALPHA;
        }
        msg[i] = (char)(base + position);
    }
    return true;
}

bool
VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
    return Apply(msg, key, key_length, true);
}
''', VernamCipher_decrypt='''
bool
VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
    return Apply(msg, key, key_length, false);
}
''')
ref('chacha-bytes', 'C11 C12', 'Src/crypto/chacha20.c', Chacha20_crypt='''
void
Chacha20_crypt(const byte_t* plaintext,
               uint32_t plaintext_len,
               const byte_t key[CHACHA20_KEY_SIZE],
               const byte_t nonce[CHACHA20_NONCE_SIZE],
               uint32_t inc,
               byte_t* result) {

    byte_t key_stream[KEY_STREAM_SIZE];
    uint32_t counter = inc;
    uint32_t done = 0U;

    while (done < plaintext_len) {
        const uint32_t rest = plaintext_len - done;
        const uint32_t chunk = (rest < BLOCK_SIZE) ? rest : BLOCK_SIZE;

        Block(key, counter, nonce, key_stream);
        for (uint32_t i = 0U; i < chunk; ++i) {
            result[done + i] = (byte_t)(plaintext[done + i] ^ key_stream[i]);
        }
        done += chunk;
        ++counter;
    }
}
''')
ref('chacha-rounds', 'C11', 'Src/crypto/chacha20.c', __subst__=[
    ('''    for (uint8_t i = 0U; i < CHACHA20_ROUNDS; ++i) {
        QuarterRound''', '''    uint32_t rounds = CHACHA20_ROUNDS;
    while (rounds-- > 0U) {
        QuarterRound'''),
    ('''    *a += *b;
    *d = BitManipulation_rotl32(*d ^ *a, 16);
''', '''    *a = *a + *b;
    *d ^= *a;
    *d = BitManipulation_rotl32(*d, 16);
''')])
ref('json-start-direct', 'C15', 'Src/json.c', Json_startString='''
bool
Json_startString(char* buffer, size_t buffer_size) {
    if (buffer_size < MINIMAL_SIZE) {
        return false;
    }
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
    memcpy(buffer, "{", MINIMAL_SIZE);
    return true;
}
''', Json_endString='''
bool
Json_endString(char* buffer, size_t buffer_size) {
    char* const end = &buffer[strlen(buffer)];
    const size_t used = (size_t)(end - buffer);

    if ((buffer_size - used) < MINIMAL_SIZE) {
        return false;
    }
    end[0] = '}';
    end[1] = '\\0';
    return true;
}
''')
ref('json-add-lengths', 'C15', 'Src/json.c', Json_addData='''
bool
Json_addData(char* buffer, size_t buffer_size, const char* key, const char* value) {
    const size_t key_length = strlen(key);
    const size_t value_length = strlen(value);
    size_t index = strlen(buffer);
    const bool separator_needed = (index != 0U) && ('"' == buffer[index - 1U]);
    size_t needed = index + key_length + value_length + 6U;

    if (separator_needed) {
        ++needed;
    }
    if (needed > buffer_size) {
        return false;
    }
    if (separator_needed) {
        buffer[index] = ',';
        ++index;
    }
    buffer[index++] = '"';
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
    memcpy(&buffer[index], key, key_length);
    index += key_length;
    buffer[index++] = '"';
    buffer[index++] = ':';
    buffer[index++] = '"';
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
    memcpy(&buffer[index], value, value_length);
    index += value_length;
    buffer[index++] = '"';
    buffer[index] = '\\0';
    return true;
}
''')
ref('json-find-found', 'C16 C17', 'Src/json.c', __subst__=[
    ('''    for (index = 0U; (index < max_search_size) && (!success); ++index) {

        if (buffer[index] == '"') {''', '''    index = 0U;
    while ((index < max_search_size) && (!success)) {
        const char current = buffer[index];

        if (current == '"') {'''),
    ('''                success = (next < text_size) && (buffer[next] == ':');
            }
        }
    }
''', '''                if ((next < text_size) && (buffer[next] == ':')) {
                    success = true;
                }
            }
        }
        ++index;
    }
''')])
ref('json-find-limit', 'C16 C17', 'Src/json.c', __subst__=[
    ('''    if (text_size > (key_size + 1U)) {
        max_search_size = text_size - key_size - 1U;
    }

    for (index = 0U; (index < max_search_size) && (!success); ++index) {
''', '''    for (index = 0U; ((index + key_size + 1U) < text_size) && (!success); ++index) {
'''),
    ('''    size_t max_search_size = 0U;
''', '')])
ref('json-find-value', 'C16 C17', 'Src/json.c', __subst__=[
    ('''        while ((index < text_size) && (value_size < max_value_size)) {
            value[value_size] = buffer[index];

            if (buffer[index] == '"') {
                value[value_size] = '\\0';
                success = true;
                break;
            }

            ++value_size;
            ++index;
        }
''', '''        for (; (index < text_size) && (value_size < max_value_size) && (!success); ++index) {
            if (buffer[index] != '"') {
                value[value_size] = buffer[index];
                ++value_size;
            } else {
                value[value_size] = '\\0';
                success = true;
            }
        }
''')])
ref('map-find', 'C18', 'Src/map.c', GetIndex='''
static bool
SameKey(const Map_t* map, int32_t position, const byte_t* key) {
    return memcmp(&map->keys[position * map->key_size], key, (size_t)map->key_size) == 0;
}

static int32_t
GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
    int32_t i = 0;
    while ((i < size) && !SameKey(map, i, key)) {
        ++i;
    }
    return (i < size) ? i : INDEX_NOT_FOUND;
}
''', Map_getValue='''
bool
Map_getValue(const Map_t* map, const byte_t* key, byte_t* value) {
    if (map == NULL_PTR) {
        return false;
    }
    const int32_t index = GetIndex(map, key, map->current_size);
    if (index == INDEX_NOT_FOUND) {
        return false;
    }
    const byte_t* stored = map->values + (index * map->value_size);
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(value, stored, (size_t)map->value_size);
    return true;
}
''')
ref('map-pointer', 'C18', 'Src/map.c', GetIndex='''
static int32_t
GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
    const byte_t* current = map->keys;
    for (int32_t i = 0; i < size; ++i) {
        if (0 == memcmp(current, key, (size_t)map->key_size)) {
            return i;
        }
        current += map->key_size;
    }
    return INDEX_NOT_FOUND;
}
''')
ref('queue-wrap', 'C19', 'Src/queue.c', Queue_enqueue='''
bool
Queue_enqueue(Queue_t* queue, const uint8_t* element) {
    if ((queue == NULL_PTR) || (element == NULL_PTR) || Queue_full(queue)) {
        return false;
    }
    uint32_t next = queue->rear + 1U;
    if (next >= queue->capacity) {
        next = 0U;
    }
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(queue->buffer + (next * queue->element_size), element, queue->element_size);
    queue->rear = next;
    queue->size++;
    return true;
}
''', Queue_dequeue='''
bool
Queue_dequeue(Queue_t* queue, uint8_t* element) {
    const bool status = Queue_front(queue, element);
    if (status) {
        ++queue->front;
        if (queue->front == queue->capacity) {
            queue->front = 0U;
        }
        --queue->size;
    }
    return status;
}
''')
ref('pq-remove', 'C20', 'Src/priority_queue.c', __subst__=[
    ('''bool
PriorityQueue_init(''', '''static void
Append(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(&queue->buffer[queue->size * queue->element_size], item->element, queue->element_size);
    queue->priority_array[queue->size] = *(item->priority);
    ++queue->size;
}

static void
Remove(PriorityQueue_t* queue, uint32_t position) {
    uint8_t* buffer = queue->buffer;
    const uint32_t element_size = queue->element_size;
    --queue->size;
    for (uint32_t i = position; i < queue->size; ++i) {
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(&buffer[i * element_size], &buffer[(i + 1U) * element_size], element_size);
        queue->priority_array[i] = queue->priority_array[i + 1U];
    }
}

bool
PriorityQueue_init(''')], PriorityQueue_enqueue='''
bool
PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    bool status = true;
    if (Full(queue)) {
        const uint32_t lowest = GetLowestPriorityIndex(queue);
        if (queue->priority_array[lowest] < (*(item->priority))) {
            Remove(queue, lowest);
        } else {
            status = false;
        }
    }
    if (status) {
        Append(queue, item);
    }
    return status;
}
''', PriorityQueue_dequeue='''
bool
PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
    if (PriorityQueue_empty(queue)) {
        return false;
    }
    const uint32_t position = GetHighestPriorityIndex(queue);
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(element, &queue->buffer[position * queue->element_size], queue->element_size);
    Remove(queue, position);
    return true;
}
''')
ref('pq-index-only', 'C20', 'Src/priority_queue.c', GetHighestPriorityIndex='''
static uint32_t
GetHighestPriorityIndex(const PriorityQueue_t* queue) {
    uint32_t best = 0U;
    uint32_t i = 1U;

    while (i < queue->size) {
        if (queue->priority_array[i] > queue->priority_array[best]) {
            best = i;
        }
        ++i;
    }

    return best;
}
''', GetLowestPriorityIndex='''
static uint32_t
GetLowestPriorityIndex(const PriorityQueue_t* queue) {
    uint32_t worst = queue->size - 1U;

    for (uint32_t i = queue->size - 1U; i > 0U; --i) {
        if (queue->priority_array[i - 1U] <= queue->priority_array[worst]) {
            worst = i - 1U;
        }
    }

    return worst;
}
''')
ref('sched-free', 'C21', 'Src/scheduler.c', Scheduler_addTask='''
static uint32_t
FirstFree(const SchedulerTask_t* tasks, uint32_t max_num_tasks) {
    uint32_t i;
    for (i = 0U; i < max_num_tasks; ++i) {
        if (tasks[i].function == NULL_PTR) {
            break;
        }
    }
    return i;
}

bool
Scheduler_addTask(SchedulerTask_t* tasks, uint32_t max_num_tasks, const SchedulerTask_t* new_task) {
    const uint32_t slot = FirstFree(tasks, max_num_tasks);
    if (slot >= max_num_tasks) {
        return false;
    }
    tasks[slot] = *new_task;
    return true;
}
''', Scheduler_run='''
void
Scheduler_run(const SchedulerTask_t* task, uint32_t num_of_tasks) {
    const SchedulerTask_t* current = task;
    for (uint32_t left = num_of_tasks; left > 0U; --left) {
        if (current->active && (current->function != NULL_PTR)) {
            current->function();
        }
        ++current;
    }
}
''')
ref('bubble-helper', 'C22', 'Src/sort/bubble_sort.c', BubbleSort_sort='''
static bool
Pass(byte_t* elements, int32_t count, int32_t element_size, bool (*compareFun)(void* first, void* second)) {
    bool swapped = false;
    for (int32_t j = 1; j < count; ++j) {
        byte_t* first = &elements[(j - 1) * element_size];
        byte_t* second = &elements[j * element_size];
        if (compareFun(first, second)) {
            Utils_swapElements(first, second, (uint32_t)element_size);
            swapped = true;
        }
    }
    return swapped;
}

void
BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    int32_t count = number_of_elements;
    while (Pass(buffer, count, element_size, compareFun)) {
        --count;
    }
}
''')
ref('bubble-last', 'C22', 'Src/sort/bubble_sort.c', BubbleSort_sort='''
void
BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    byte_t* elements = buffer;
    bool swapped = true;
    for (int32_t last = number_of_elements - 1; swapped; --last) {
        swapped = false;
        for (int32_t j = 0; j < last; ++j) {
            byte_t* current = &elements[j * element_size];
            byte_t* next = current + element_size;
            if (compareFun(current, next)) {
                Utils_swapElements(current, next, (uint32_t)element_size);
                swapped = true;
            }
        }
    }
}
''')
ref('selection-pointer', 'C23', 'Src/sort/selection_sort.c', SelectionSort_sort='''
void
SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    for (int32_t i = 0; (i + 1) < number_of_elements; ++i) {
        byte_t* target = &buffer[i * element_size];
        byte_t* smallest = target;
        for (int32_t j = i + 1; j < number_of_elements; ++j) {
            byte_t* candidate = &buffer[j * element_size];
            if (compareFun(smallest, candidate)) {
                smallest = candidate;
            }
        }

        if (smallest != target) {
            Utils_swapElements(smallest, target, (uint32_t)element_size);
        }
    }
}
''')
ref('selection-always', 'C23', 'Src/sort/selection_sort.c', __subst__=[
    ('''        if (min_index != i) {
            Utils_swapElements(&elements[min_index * element_size], &elements[i * element_size], (uint32_t)element_size);
        }
''', '''        Utils_swapElements(&elements[i * element_size], &elements[min_index * element_size], (uint32_t)element_size);
''')])
ref('insertion-break', 'C24', 'Src/sort/insertion_sort.c', __subst__=[
    ('''        int32_t j = i - 1;
        bool compare = compareFun(&elements[j * element_size], element);

        while ((j >= 0) && compare) {
''', '''        int32_t j;

        for (j = i - 1; j >= 0; --j) {
            if (!compareFun(&elements[j * element_size], element)) {
                break;
            }
'''),
    ('''            --j;
            compare = (j >= 0) && compareFun(&elements[j * element_size], element);
''', '')])
ref('insertion-hole', 'C24', 'Src/sort/insertion_sort.c', InsertionSort_sort='''
void
InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    static byte_t element[MAX_ELEMENT_SIZE];
    const size_t size = (size_t)element_size;

    for (int32_t i = 1; i < number_of_elements; ++i) {
        int32_t hole = i;
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(element, &buffer[i * element_size], size);

        while ((hole > 0) && compareFun(&buffer[(hole - 1) * element_size], element)) {
            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
            memcpy(&buffer[hole * element_size], &buffer[(hole - 1) * element_size], size);
            --hole;
        }
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(&buffer[hole * element_size], element, size);
    }
}
''')
ref('heap-larger', 'C25', 'Src/sort/heap_sort.c', Heapify='''
static int32_t
LargerOf(byte_t* elements, int32_t n, int32_t candidate, int32_t current, int32_t element_size,
         bool (*compareFun)(void* first, void* second)) {
    if ((candidate < n) && compareFun(&elements[candidate * element_size], &elements[current * element_size])) {
        return candidate;
    }
    return current;
}

static void
Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
        bool (*compareFun)(void* first, void* second)) {
    int32_t index = i;

    while (index < (n / 2)) {
        const int32_t left = (2 * index) + 1;
        int32_t largest = LargerOf(buffer, n, left, index, element_size, compareFun);
        largest = LargerOf(buffer, n, left + 1, largest, element_size, compareFun);
        if (largest == index) {
            return;
        }
        Utils_swapElements(&buffer[largest * element_size], &buffer[index * element_size], (uint32_t)element_size);
        index = largest;
    }
}
''')
ref('heap-outer', 'C25', 'Src/sort/heap_sort.c', HeapSort_sort='''
static void
BuildHeap(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
          bool (*compareFun)(void* first, void* second)) {
    for (int32_t i = number_of_elements / 2; i > 0; --i) {
        Heapify(buffer, number_of_elements, i - 1, element_size, compareFun);
    }
}

void
HeapSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
              bool (*compareFun)(void* first, void* second)) {
    BuildHeap(buffer, number_of_elements, element_size, compareFun);
    for (int32_t last = number_of_elements - 1; last > 0; --last) {
        Utils_swapElements(buffer, &buffer[last * element_size], (uint32_t)element_size);
        Heapify(buffer, last, 0, element_size, compareFun);
    }
}
''')
ref('utils-swapup', 'C29 C22', 'Src/utils.c', Utils_swapElements='''
void
Utils_swapElements(byte_t* first, byte_t* second, uint32_t size) {
    byte_t* a = first;
    byte_t* b = second;
    for (uint32_t left = size; left > 0U; --left) {
        const byte_t temp = *a;
        *a++ = *b;
        *b++ = temp;
    }
}
''')
ref('utils-shifts', 'C26', 'Src/utils.c', Utils_deserialize32BE='''
uint32_t
Utils_deserialize32BE(const byte_t* buf) {
    uint32_t value = 0U;
    for (uint8_t i = 0U; i < 4U; ++i) {
        value = (value << 8U) | buf[i];
    }
    return value;
}
''', Utils_deserialize24LE='''
uint32_t
Utils_deserialize24LE(const byte_t* buf) {
    return (uint32_t)Utils_deserialize16LE(buf) + ((uint32_t)buf[2] * 65536U);
}
''', Utils_serialize24BE='''
void
Utils_serialize24BE(byte_t* buf, uint32_t value) {
    buf[0] = (uint8_t)(value >> 16u);
    Utils_serialize16BE(&buf[1], (uint16_t)value);
}
''')
ref('utils-blobdown', 'C27', 'Src/utils.c', Utils_serializeBlobBE='''
void
Utils_serializeBlobBE(byte_t* buf, const byte_t* src, uint32_t size) {
    uint32_t i = size;
    while (i > 0U) {
        --i;
        buf[i] = src[i];
    }
}
''', Utils_serializeBlobLE='''
void
Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
    const byte_t* from = src + size;
    byte_t* to = buf;
    while (from != src) {
        --from;
        *to = *from;
        ++to;
    }
}
''', Utils_deserializeBlobLE='''
void
Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
    Utils_serializeBlobLE(dst, buf, size);
}
''')
ref('utils-u64', 'C28', 'Src/utils.c', Utils_stringToUint32='''
bool
Utils_stringToUint32(const char* str, uint8_t str_length, uint32_t* integer) {
    uint64_t number = 0U;
    bool success = (str_length <= MAX_UINT32_POW_10_EXPONENT);

    *integer = 0U;
    for (uint8_t i = 0U; success && (i < str_length); ++i) {
        const char c = str[i];
        if ((c < '0') || (c > '9')) {
            success = false;
        } else {
            number = (number * 10U) + (uint64_t)(c - '0');
        }
    }
    if (success && (number > UINT32_MAX)) {
        success = false;
    }
    if (success) {
        *integer = (uint32_t)number;
    }
    return success;
}
''')
ref('utils-isdigit', 'C28', 'Src/utils.c', __subst__=[
    ('''bool
Utils_stringToUint32(''', '''static bool
IsDigit(char c) {
    return (c >= '0') && (c <= '9');
}

bool
Utils_stringToUint32('''),
    ('''        if ((str[i] >= '0') && (str[i] <= '9')) {
''', '''        if (IsDigit(str[i])) {
'''),
    ('''        if ((str[last_digit_index] >= '0') && (str[last_digit_index] <= '9')) {
''', '''        if (IsDigit(str[last_digit_index])) {
'''),
    ('''            const int8_t digit = (int8_t)((int8_t)str[i] - (int8_t)'0');
            const uint8_t unsigned_power = length - (i + 1U);
''', '''            const uint8_t unsigned_power = length - (i + 1U);
            const int8_t digit = (int8_t)((int8_t)str[i] - (int8_t)'0');
''')])
ref('utils-ctype', 'C30 C13 C14', 'Src/utils.c', Utils_isUpperChar='''
static bool
InRange(char input, uint8_t low, uint8_t high) {
    const uint8_t c = (uint8_t)input;
    return (c >= low) && (c <= high);
}

bool
Utils_isUpperChar(char input) {
    return InRange(input, UPPER_A_ASCII, UPPER_Z_ASCII);
}
''', Utils_isLowerChar='''
bool
Utils_isLowerChar(char input) {
    return InRange(input, LOWER_A_ASCII, LOWER_Z_ASCII);
}
''', Utils_quickUint32Pow10='''
bool
Utils_quickUint32Pow10(uint8_t exponent, uint32_t* result) {
    if (exponent >= MAX_UINT32_POW_10_EXPONENT) {
        return false;
    }
    uint32_t power = 1U;
    for (uint8_t i = 0U; i < exponent; ++i) {
        power *= 10U;
    }
    *result = power;
    return true;
}
''')

# ---------------------------------------------------------------- fourth batch
ref('queue-peek', 'C19', 'Src/queue.c', Queue_dequeue='''
static bool
CopyFrom(const Queue_t* queue, uint32_t position, uint8_t* element) {
    if ((queue->buffer == NULL_PTR) || (queue->size == 0U)) {
        return false;
    }
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(element, queue->buffer + (position * queue->element_size), queue->element_size);
    return true;
}

bool
Queue_dequeue(Queue_t* queue, uint8_t* element) {
    if ((queue == NULL_PTR) || (element == NULL_PTR)) {
        return false;
    }
    const bool status = CopyFrom(queue, queue->front, element);
    if (status) {
        queue->front = ((queue->front + 1U) == queue->capacity) ? 0U : (queue->front + 1U);
        queue->size--;
    }
    return status;
}
''', Queue_front='''
bool
Queue_front(const Queue_t* queue, uint8_t* element) {
    return (queue != NULL_PTR) && (element != NULL_PTR) && CopyFrom(queue, queue->front, element);
}
''', Queue_rear='''
bool
Queue_rear(const Queue_t* queue, uint8_t* element) {
    return (queue != NULL_PTR) && (element != NULL_PTR) && CopyFrom(queue, queue->rear, element);
}
''')
ref('queue-local', 'C19', 'Src/queue.c', Queue_enqueue='''
bool
Queue_enqueue(Queue_t* queue, const uint8_t* element) {
    bool status = false;
    if ((queue != NULL_PTR) && (element != NULL_PTR) && (queue->size < queue->capacity)) {
        const uint32_t size = queue->element_size;
        const uint32_t rear = (queue->rear + 1U) % queue->capacity;
        queue->rear = rear;
        ++queue->size;
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(&queue->buffer[rear * size], element, size);
        status = true;
    }
    return status;
}
''')
ref('pq-extreme', 'C20', 'Src/priority_queue.c', GetHighestPriorityIndex='''
static uint32_t
GetExtreme(const PriorityQueue_t* queue, bool highest) {
    uint32_t best = 0U;
    for (uint32_t i = 1U; i < queue->size; ++i) {
        const uint32_t candidate = queue->priority_array[i];
        const uint32_t current = queue->priority_array[best];
        if (highest ? (candidate > current) : (candidate < current)) {
            best = i;
        }
    }
    return best;
}

static uint32_t
GetHighestPriorityIndex(const PriorityQueue_t* queue) {
    return GetExtreme(queue, true);
}
''', GetLowestPriorityIndex='''
static uint32_t
GetLowestPriorityIndex(const PriorityQueue_t* queue) {
    return GetExtreme(queue, false);
}
''')
ref('pq-store', 'C20', 'Src/priority_queue.c', PriorityQueue_enqueue='''
static void
Append(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    const uint32_t position = queue->size;
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(&queue->buffer[position * queue->element_size], item->element, queue->element_size);
    queue->priority_array[position] = *(item->priority);
    queue->size = position + 1U;
}

static void
RemoveAt(PriorityQueue_t* queue, uint32_t position) {
    uint8_t* buffer = queue->buffer;
    const uint32_t element_size = queue->element_size;
    queue->size = queue->size - 1U;
    for (uint32_t i = position; i < queue->size; ++i) {
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(&buffer[i * element_size], &buffer[(i + 1U) * element_size], element_size);
        queue->priority_array[i] = queue->priority_array[i + 1U];
    }
}

bool
PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
    if (Full(queue)) {
        const uint32_t lowest = GetLowestPriorityIndex(queue);
        if (queue->priority_array[lowest] >= *(item->priority)) {
            return false;
        }
        RemoveAt(queue, lowest);
    }
    Append(queue, item);
    return true;
}
''', PriorityQueue_dequeue='''
bool
PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
    if (queue->size == 0U) {
        return false;
    }
    const uint32_t highest = GetHighestPriorityIndex(queue);
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(element, &queue->buffer[highest * queue->element_size], queue->element_size);
    RemoveAt(queue, highest);
    return true;
}
''')
ref('sched-pointer', 'C21', 'Src/scheduler.c', Scheduler_addTask='''
bool
Scheduler_addTask(SchedulerTask_t* tasks, uint32_t max_num_tasks, const SchedulerTask_t* new_task) {
    for (uint32_t i = 0U; i < max_num_tasks; ++i) {
        SchedulerTask_t* slot = &tasks[i];
        if (slot->function != NULL_PTR) {
            continue;
        }
        *slot = *new_task;
        return true;
    }
    return false;
}
''', Scheduler_run='''
static bool
IsRunnable(const SchedulerTask_t* task) {
    return task->active && (task->function != NULL_PTR);
}

void
Scheduler_run(const SchedulerTask_t* task, uint32_t num_of_tasks) {
    const SchedulerTask_t* current = task;
    uint32_t remaining = num_of_tasks;
    while (remaining > 0U) {
        if (IsRunnable(current)) {
            current->function();
        }
        ++current;
        --remaining;
    }
}
''', Scheduler_init='''
void
Scheduler_init(SchedulerTask_t* tasks, uint32_t num_of_tasks) {
    uint32_t i = num_of_tasks;
    while (i != 0U) {
        --i;
        tasks[i].active = false;
        tasks[i].function = NULL_PTR;
    }
}
''')
ref('map-slot', 'C18', 'Src/map.c', Map_insert='''
bool
Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
    if (map == NULL_PTR) {
        return false;
    }

    int32_t slot = GetIndex(map, key, map->current_size);
    if (slot == INDEX_NOT_FOUND) {
        slot = map->current_size;
        if (slot == map->max_map_size) {
            return false;
        }
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(&map->keys[slot * map->key_size], key, (size_t)map->key_size);
        map->current_size = slot + 1;
    }

    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(&map->values[slot * map->value_size], value, (size_t)map->value_size);
    return true;
}
''')
ref('map-locals', 'C18', 'Src/map.c', GetIndex='''
static int32_t
GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
    const byte_t* const keys = map->keys;
    const int32_t key_size = map->key_size;
    int32_t index = INDEX_NOT_FOUND;
    int32_t i = 0;
    bool found = false;
    while ((!found) && (i < size)) {
        found = (memcmp(&keys[i * key_size], key, (size_t)key_size) == 0);
        if (found) {
            index = i;
        } else {
            ++i;
        }
    }
    return index;
}
''')
ref('bubble-return', 'C22', 'Src/sort/bubble_sort.c', BubbleSort_sort='''
static bool
CompareAndSwap(byte_t* left, byte_t* right, int32_t element_size, bool (*compareFun)(void* first, void* second)) {
    const bool wrong_order = compareFun(left, right);
    if (wrong_order) {
        Utils_swapElements(left, right, (uint32_t)element_size);
    }
    return wrong_order;
}

void
BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    for (int32_t last = number_of_elements - 1; last > 0; --last) {
        bool swapped = false;
        for (int32_t j = 0; j < last; ++j) {
            if (CompareAndSwap(&buffer[j * element_size], &buffer[(j + 1) * element_size], element_size, compareFun)) {
                swapped = true;
            }
        }
        if (!swapped) {
            return;
        }
    }
}
''')
ref('selection-min', 'C23', 'Src/sort/selection_sort.c', SelectionSort_sort='''
static int32_t
IndexOfSmallest(byte_t* elements, int32_t from, int32_t to, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    int32_t smallest = from;
    for (int32_t candidate = from + 1; candidate < to; candidate++) {
        if (compareFun(&elements[smallest * element_size], &elements[candidate * element_size])) {
            smallest = candidate;
        }
    }
    return smallest;
}

void
SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    int32_t i = 0;
    while (i < (number_of_elements - 1)) {
        const int32_t smallest = IndexOfSmallest(buffer, i, number_of_elements, element_size, compareFun);
        if (smallest > i) {
            Utils_swapElements(&buffer[i * element_size], &buffer[smallest * element_size], (uint32_t)element_size);
        }
        ++i;
    }
}
''')
ref('insertion-while', 'C24', 'Src/sort/insertion_sort.c', InsertionSort_sort='''
void
InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    byte_t element[MAX_ELEMENT_SIZE];
    const size_t size = (size_t)element_size;

    for (int32_t i = 1; i < number_of_elements; ++i) {
        int32_t hole = i;
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(element, &buffer[i * element_size], size);

        while ((hole > 0) && compareFun(&buffer[(hole - 1) * element_size], element)) {
            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
            memcpy(&buffer[hole * element_size], &buffer[(hole - 1) * element_size], size);
            hole--;
        }

        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(&buffer[hole * element_size], element, size);
    }
}
''')
ref('insertion-skip', 'C24', 'Src/sort/insertion_sort.c', InsertionSort_sort='''
static void
Insert(byte_t* elements, int32_t i, int32_t element_size, bool (*compareFun)(void* first, void* second)) {
    static byte_t element[MAX_ELEMENT_SIZE];
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(element, &elements[i * element_size], (size_t)element_size);

    int32_t j = i - 1;
    while (j >= 0) {
        if (!compareFun(&elements[j * element_size], element)) {
            break;
        }
        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
        memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
        --j;
    }
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(&elements[(j + 1) * element_size], element, (size_t)element_size);
}

void
InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    int32_t i = 1;
    while (i < number_of_elements) {
        Insert(buffer, i, element_size, compareFun);
        ++i;
    }
}
''')
ref('heap-two', 'C25', 'Src/sort/heap_sort.c', Heapify='''
static bool
Greater(byte_t* elements, int32_t a, int32_t b, int32_t element_size, bool (*compareFun)(void* first, void* second)) {
    return compareFun(&elements[a * element_size], &elements[b * element_size]);
}

static void
Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
        bool (*compareFun)(void* first, void* second)) {
    int32_t parent = i;

    while (parent < (n / 2)) {
        int32_t child = (2 * parent) + 1;
        int32_t largest = parent;

        if (Greater(buffer, child, largest, element_size, compareFun)) {
            largest = child;
        }
        ++child;
        if ((child < n) && Greater(buffer, child, largest, element_size, compareFun)) {
            largest = child;
        }
        if (largest == parent) {
            break;
        }
        Utils_swapElements(&buffer[parent * element_size], &buffer[largest * element_size], (uint32_t)element_size);
        parent = largest;
    }
}
''')
ref('crc8-pointer', 'C06 C09 C10', 'Src/crc/crc8_base.c', __subst__=[])
ref('crc16-pointer', 'C07 C09 C10', 'Src/crc/crc16_base.c', Crc16Base='''
static uint8_t
NextByte(uint8_t byte, bool reflected) {
    return reflected ? (uint8_t)BitManipulation_reflect(byte, REFLECTED_INPUT_BITS_NUM) : byte;
}

uint16_t
Crc16Base(
    const uint16_t crc_table[256],
    const uint8_t* crc_data_ptr,
    uint32_t crc_length,
    uint16_t crc_initial_value,
    uint16_t final_xor_value,
    bool reflected_output,
    bool reflected_input,
    bool final_xor) {

    uint16_t crc = crc_initial_value;
    const uint8_t* const end = crc_data_ptr + crc_length;

    for (const uint8_t* data = crc_data_ptr; data != end; ++data) {
        const uint8_t index = (uint8_t)(crc >> 8U) ^ NextByte(*data, reflected_input);
        crc = (uint16_t)(crc << 8U) ^ crc_table[index];
    }

    if (reflected_output) {
        crc = (uint16_t)BitManipulation_reflect(crc, REFLECTED_OUTPUT_BITS_NUM);
    }

    return final_xor ? (crc ^ final_xor_value) : crc;
}
''', Crc16Base_tableCalculator='''
static uint16_t
Residue(uint16_t polynomial, uint8_t dividend) {
    uint16_t residue = (uint16_t)((uint16_t)dividend << 8U);
    for (uint8_t bit = 8U; bit > 0U; --bit) {
        const bool top = (residue & 0x8000U) != 0U;
        residue = (uint16_t)(residue << 1U);
        if (top) {
            residue ^= polynomial;
        }
    }
    return residue;
}

void
Crc16Base_tableCalculator(uint16_t polynomial, uint16_t crc_table[256]) {
    for (uint32_t dividend = 0U; dividend < 256U; ++dividend) {
        crc_table[dividend] = Residue(polynomial, (uint8_t)dividend);
    }
}
''')
del REF['crc8-pointer']
ref('crc16-ternary', 'C07 C09', 'Src/crc/crc16_variants/crc16_modbus.c', __subst__=[
    ('''    bool reflect_output = false;
    uint16_t crc_initial_value = INITIAL_CRC16_VALUE;

    if (NULL_PTR != last_crc_ptr) {
        crc_initial_value = *last_crc_ptr;
    }

    if (final_crc) {
        reflect_output = REFLECTED_OUTPUT;
    }
''', '''    const bool reflect_output = final_crc && REFLECTED_OUTPUT;
    const uint16_t crc_initial_value = (last_crc_ptr == NULL_PTR) ? INITIAL_CRC16_VALUE : *last_crc_ptr;
''')])
ref('chacha-state', 'C11 C12', 'Src/crypto/chacha20.c', Chacha20_crypt='''
static void
XorBlock(const byte_t* in, const byte_t* key_stream, uint32_t size, byte_t* out) {
    for (uint32_t i = 0U; i < size; ++i) {
        out[i] = in[i] ^ key_stream[i];
    }
}

void
Chacha20_crypt(const byte_t* plaintext,
               uint32_t plaintext_len,
               const byte_t key[CHACHA20_KEY_SIZE],
               const byte_t nonce[CHACHA20_NONCE_SIZE],
               uint32_t inc,
               byte_t* result) {
    byte_t key_stream[KEY_STREAM_SIZE] = ARRAY_64_ZERO_VALUES;
    uint32_t remaining = plaintext_len;
    uint32_t position = 0U;
    uint32_t counter = inc;

    while (remaining > 0U) {
        const uint32_t size = (remaining < BLOCK_SIZE) ? remaining : BLOCK_SIZE;
        Block(key, counter, nonce, key_stream);
        XorBlock(&plaintext[position], key_stream, size, &result[position]);
        ++counter;
        position += size;
        remaining -= size;
    }
}
''')
ref('chacha-quarter', 'C11', 'Src/crypto/chacha20.c', QuarterRound='''
static inline void
Mix(uint32_t* sum, uint32_t addend, uint32_t* target, uint8_t distance) {
    *sum += addend;
    *target = BitManipulation_rotl32(*sum ^ *target, distance);
}

static inline void
QuarterRound(uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
    Mix(a, *b, d, 16U);
    Mix(c, *d, b, 12U);
    Mix(a, *b, d, 8U);
    Mix(c, *d, b, 7U);
}
''')
ref('utils-cursor', 'C26 C11', 'Src/utils.c', Utils_serialize32LE='''
void
Utils_serialize32LE(byte_t* buf, uint32_t value) {
    byte_t* cursor = buf;
    uint32_t rest = value;
    for (uint32_t i = 0U; i < sizeof(value); ++i) {
        *cursor++ = (byte_t)(rest & 0xFFU);
        rest >>= 8U;
    }
}
''', Utils_deserialize32LE='''
uint32_t
Utils_deserialize32LE(const byte_t* buf) {
    return (uint32_t)Utils_deserialize16LE(&buf[0]) | ((uint32_t)Utils_deserialize16LE(&buf[2]) << 16U);
}
''', Utils_serialize16BE='''
void
Utils_serialize16BE(byte_t* buf, uint16_t value) {
    buf[1] = (byte_t)value;
    buf[0] = (byte_t)(value / 256U);
}
''', Utils_deserialize24BE='''
uint32_t
Utils_deserialize24BE(const byte_t* buf) {
    return ((((uint32_t)buf[0] * 256U) + buf[1]) * 256U) + buf[2];
}
''')
ref('utils-parse', 'C28', 'Src/utils.c', Utils_stringToUint32='''
static bool
IsDigit(char c) {
    return (c >= '0') && (c <= '9');
}

bool
Utils_stringToUint32(const char* str, uint8_t str_length, uint32_t* integer) {
    uint32_t number = 0U;
    bool success = (str_length <= MAX_UINT32_POW_10_EXPONENT);

    for (uint8_t i = 0U; success && (i < str_length); ++i) {
        if (IsDigit(str[i])) {
            const uint32_t digit = (uint32_t)(str[i] - '0');
            if (number > ((UINT32_MAX - digit) / 10U)) {
                success = false;
            } else {
                number = (number * 10U) + digit;
            }
        } else {
            success = false;
        }
    }

    *integer = number;
    return success;
}
''')
ref('utils-pointers', 'C29 C27', 'Src/utils.c', Utils_swapElements='''
void
Utils_swapElements(byte_t* first, byte_t* second, uint32_t size) {
    for (uint32_t i = 0U; i < size; ++i) {
        const byte_t temp = first[i];
        first[i] = second[i];
        second[i] = temp;
    }
}
''', Utils_serializeBlobLE='''
static void
CopyReversed(byte_t* to, const byte_t* from, uint32_t size) {
    const byte_t* source = from + size;
    for (uint32_t i = 0U; i < size; ++i) {
        --source;
        to[i] = *source;
    }
}

void
Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
    CopyReversed(buf, src, size);
}
''', Utils_deserializeBlobLE='''
void
Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
    CopyReversed(dst, buf, size);
}
''')
ref('caesar-base', 'C13', 'Src/crypto/caesar_cipher.c', CaesarCipher_encrypt='''
static char
Rotate(char c, uint8_t distance) {
    if (!Utils_isAlpha(c)) {
        return c;
    }
    const uint32_t base = Utils_isUpperChar(c) ? UPPER_A_ASCII : LOWER_A_ASCII;
    const uint32_t offset = ((uint32_t)(uint8_t)c - base + distance) % MAX_SHIFT;
    return (char)(base + offset);
}

void
CaesarCipher_encrypt(char* msg, uint8_t shift) {
    for (char* c = msg; *c != '\\0'; ++c) {
        *c = Rotate(*c, shift);
    }
}
''', CaesarCipher_decrypt='''
void
CaesarCipher_decrypt(char* msg, uint8_t shift) {
    const uint8_t back = (uint8_t)(MAX_SHIFT - (shift % MAX_SHIFT));
    for (char* c = msg; *c != '\\0'; ++c) {
        *c = Rotate(*c, back);
    }
}
''')
ref('vernam-offsets', 'C14', 'Src/crypto/vernam_cipher.c', VernamCipher_encrypt='''
static int32_t
Base(char c) {
    return Utils_isUpperChar(c) ? UPPER_A_ASCII : LOWER_A_ASCII;
}

static int32_t
KeyOffset(char key) {
    return (int32_t)(int8_t)key - (Utils_isLowerChar(key) ? LOWER_A_ASCII : UPPER_A_ASCII);
}

static int32_t
Modulo(int32_t value) {
    const int32_t rest = value % NUM_OF_ALPHA;
    return (rest < 0) ? (rest + NUM_OF_ALPHA) : rest;
}

bool
VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
    if ((key_length < 0) || (strlen(msg) != (size_t)key_length)) {
        return false;
    }
    for (int32_t i = 0; i < key_length; ++i) {
        if (Utils_isAlpha(msg[i])) {
            const int32_t base = Base(msg[i]);
            msg[i] = (char)(base + Modulo(msg[i] - base + KeyOffset(key[i])));
        }
    }
    return true;
}
''', VernamCipher_decrypt='''
bool
VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
    if ((key_length < 0) || (strlen(msg) != (size_t)key_length)) {
        return false;
    }
    for (int32_t i = 0; i < key_length; ++i) {
        if (Utils_isAlpha(msg[i])) {
            const int32_t base = Base(msg[i]);
            msg[i] = (char)(base + Modulo(msg[i] - base - KeyOffset(key[i])));
        }
    }
    return true;
}
''')
ref('json-add-memcpy', 'C15', 'Src/json.c', Json_addData='''
static size_t
Put(char* buffer, size_t index, const char* text, size_t length) {
    // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
    memcpy(&buffer[index], text, length);
    return index + length;
}

bool
Json_addData(char* buffer, size_t buffer_size, const char* key, const char* value) {
    size_t index = strlen(buffer);
    const size_t key_length = strlen(key);
    const size_t value_length = strlen(value);
    const bool separator_needed = (index != 0U) && ('"' == buffer[index - 1U]);
    const size_t total_size = key_length + value_length + (separator_needed ? 7U : 6U);

    if ((index + total_size) > buffer_size) {
        return false;
    }

    if (separator_needed) {
        index = Put(buffer, index, ",", 1U);
    }
    index = Put(buffer, index, "\\"", 1U);
    index = Put(buffer, index, key, key_length);
    index = Put(buffer, index, "\\":\\"", 3U);
    index = Put(buffer, index, value, value_length);
    index = Put(buffer, index, "\\"", 1U);
    buffer[index] = '\\0';
    return true;
}
''', Json_endString='''
bool
Json_endString(char* buffer, size_t buffer_size) {
    const size_t index = strlen(buffer);
    const bool fits = (index + 2U) <= buffer_size;
    if (fits) {
        buffer[index] = '}';
        buffer[index + 1U] = '\\0';
    }
    return fits;
}
''')
ref('json-find-skip', 'C16 C17', 'Src/json.c', __subst__=[
    ('''                size_t next = index + key_size + 2U;

                while ((next < text_size) && IsWhitespace(buffer[next])) {
                    ++next;
                }

                /* A string that is not followed by ':' is a value. */
                success = (next < text_size) && (buffer[next] == ':');
''', '''                const size_t next = SkipWhitespace(buffer, text_size, index + key_size + 2U);

                /* A string that is not followed by ':' is a value. */
                success = (next < text_size) && (buffer[next] == ':');
'''), ('''        success = false;
        for (index += key_size + 1U; index < text_size; ++index) {

            if (buffer[index] == '"') {
                break;
            }
        }
''', '''        success = false;
        index = FindQuote(buffer, text_size, index + key_size + 1U);
'''), ('''bool
Json_findByKey(''', '''static size_t
SkipWhitespace(const char* text, size_t size, size_t from) {
    size_t position = from;
    while ((position < size) && IsWhitespace(text[position])) {
        ++position;
    }
    return position;
}

static size_t
FindQuote(const char* text, size_t size, size_t from) {
    size_t position = from;
    while ((position < size) && (text[position] != '"')) {
        ++position;
    }
    return position;
}

bool
Json_findByKey(''')])
ref('json-find-memcpy', 'C16 C17', 'Src/json.c', __subst__=[
    ('''        size_t value_size = 0;
        ++index;

        while ((index < text_size) && (value_size < max_value_size)) {
            value[value_size] = buffer[index];

            if (buffer[index] == '"') {
                value[value_size] = '\\0';
                success = true;
                break;
            }

            ++value_size;
            ++index;
        }
''', '''        ++index;
        for (size_t i = 0U; ((index + i) < text_size) && (i < max_value_size); ++i) {
            const char c = buffer[index + i];
            if (c == '"') {
                value[i] = '\\0';
                success = true;
                break;
            }
            value[i] = c;
        }
''')])
ref('json-find-textsize', 'C16 C17', 'Src/json.c', __subst__=[
    ('''    while ((text_size < buffer_size) && (buffer[text_size] != '\\0')) {
        ++text_size;
    }

    if (text_size > (key_size + 1U)) {
        max_search_size = text_size - key_size - 1U;
    }
''', '''    for (text_size = 0U; text_size < buffer_size; ++text_size) {
        if (buffer[text_size] == '\\0') {
            break;
        }
    }

    max_search_size = ((key_size + 1U) < text_size) ? (text_size - (key_size + 1U)) : 0U;
''')])
ref('bits-mask', 'C04 C05', 'Src/bit_manipulation.c', __subst__=[])
del REF['bits-mask']
ref('bits-guard', 'C04 C05', 'Src/bit_manipulation.c', BitManipulation_setBit='''
static bool
Apply(uint32_t n, uint32_t value, uint32_t* out) {
    const bool valid = (n <= MAX_BIT_SHIFT);
    if (valid) {
        *out = value;
    }
    return valid;
}

bool
BitManipulation_setBit(uint32_t data, uint8_t n, uint32_t* out) {
    const uint32_t mask = 1U << (n & 0x1FU);
    return Apply(n, data | mask, out);
}
''', BitManipulation_clearBit='''
bool
BitManipulation_clearBit(uint32_t data, uint8_t n, uint32_t* out) {
    const uint32_t mask = 1U << (n & 0x1FU);
    return Apply(n, data & ~mask, out);
}
''', BitManipulation_toggleBit='''
bool
BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
    const uint32_t mask = 1U << (n & 0x1FU);
    return Apply(n, data ^ mask, out);
}
''', BitManipulation_bitSet='''
bool
BitManipulation_bitSet(uint32_t data, uint8_t n, bool* bit_set) {
    if (n > MAX_BIT_SHIFT) {
        return false;
    }
    *bit_set = (((data >> n) & 1U) == 1U);
    return true;
}
''', BitManipulation_reflect='''
uint32_t
BitManipulation_reflect(uint32_t data, uint8_t n_bits) {
    uint32_t reflection = 0U;
    uint32_t rest = data;
    for (uint8_t remaining = n_bits; remaining > 0U; --remaining) {
        reflection = (reflection << 1U) | (rest & 1U);
        rest >>= 1U;
    }
    return reflection;
}
''')
ref('b64enc-group', 'C01', 'Src/base64.c', __subst__=[
    ('''            *pos = base64_table[in[0] >> 2];
            ++pos;
            *pos = base64_table[((in[0] & 0x03U) << 4) | (in[1] >> 4)];
            ++pos;
            *pos = base64_table[((in[1] & 0x0FU) << 2) | (in[2] >> 6)];
            ++pos;
            *pos = base64_table[in[2] & 0x3FU];
            ++pos;
            ++in;
            ++in;
            ++in;
            in_position += 3U;
''', '''            const uint32_t group = ((uint32_t)in[0] << 16U) | ((uint32_t)in[1] << 8U) | (uint32_t)in[2];
            for (uint32_t i = 0U; i < 4U; ++i) {
                pos[i] = base64_table[(group >> (18U - (6U * i))) & 0x3FU];
            }
            pos += 4;
            in += 3;
            in_position += 3U;
''')])
ref('b64dec-cond', 'C02 C03', 'Src/base64.c', __subst__=[
    ('''    if (out_len > max_out_len) {
        success = 1;
    }

    if (in_len < 2U) {
        success = 1;
    }
''', '''    const bool usable = (in_len >= 2U) && (out_len <= max_out_len);
    if (!usable) {
        success = 1;
    }
''')])
# fifth batch: elements moved byte by byte
ref('queue-bytes-ptr', 'C19', 'Src/queue.c', __subst__=[
    ('bool\nQueue_enqueue(', 'static void\nMoveElement(uint8_t* to, const uint8_t* from, uint32_t n) {\n    while (n-- > 0U) {\n        *to++ = *from++;\n    }\n}\n\nbool\nQueue_enqueue('),
    ('memcpy(&buffer[((', 'MoveElement(&buffer[(('),
    ('memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);', 'MoveElement(element, &buffer[queue->front * queue->element_size], queue->element_size);', 2),
    ('memcpy(element, &buffer[queue->rear', 'MoveElement(element, &buffer[queue->rear'),
])
ref('queue-bytes-down', 'C19', 'Src/queue.c', __subst__=[
    ('bool\nQueue_enqueue(', 'static void\nMoveElement(uint8_t* to, const uint8_t* from, size_t n) {\n    while (n != 0U) {\n        --n;\n        to[n] = from[n];\n    }\n}\n\nbool\nQueue_enqueue('),
    ('memcpy(&buffer[((', 'MoveElement(&buffer[(('),
    ('memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);', 'MoveElement(element, &buffer[queue->front * queue->element_size], queue->element_size);', 2),
    ('memcpy(element, &buffer[queue->rear', 'MoveElement(element, &buffer[queue->rear'),
])
ref('queue-bytes-offset', 'C19', 'Src/queue.c', Queue_rear='''
bool
Queue_rear(const Queue_t* queue, uint8_t* element) {
    bool status = false;
    if ((queue != NULL_PTR) && (element != NULL_PTR)) {
        if (!Queue_empty(queue)) {
            const uint32_t start = queue->rear * queue->element_size;
            for (uint32_t i = 0U; i < queue->element_size; ++i) {
                element[i] = queue->buffer[start + i];
            }
            status = true;
        }
    }
    return status;
}
''')
ref('queue-bytes-end', 'C19', 'Src/queue.c', Queue_front='''
bool
Queue_front(const Queue_t* queue, uint8_t* element) {
    bool status = false;
    if ((queue != NULL_PTR) && (element != NULL_PTR)) {
        if (!Queue_empty(queue)) {
            const uint8_t* source = &queue->buffer[queue->front * queue->element_size];
            const uint8_t* end = source + queue->element_size;
            while (source != end) {
                *element = *source;
                ++element;
                ++source;
            }
            status = true;
        }
    }
    return status;
}
''')
ref('pq-bytes', 'C20', 'Src/priority_queue.c', PriorityQueue_dequeue='''
static void
CopyItem(PriorityQueue_t* queue, uint32_t to, uint32_t from) {
    for (uint32_t b = 0U; b < queue->element_size; ++b) {
        queue->buffer[(to * queue->element_size) + b] = queue->buffer[(from * queue->element_size) + b];
    }
}

bool
PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
    bool status = false;
    if (!PriorityQueue_empty(queue)) {
        status = true;
        uint32_t best = GetHighestPriorityIndex(queue);
        memcpy(element, &queue->buffer[best * queue->element_size], queue->element_size);
        queue->size = queue->size - 1U;
        for (uint32_t i = best; i < queue->size; ++i) {
            CopyItem(queue, i, i + 1U);
            queue->priority_array[i] = queue->priority_array[i + 1U];
        }
    }
    return status;
}
''')
ref('bubble-bytes', 'C22', 'Src/sort/bubble_sort.c', BubbleSort_sort='''
void
BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                bool (*compareFun)(void* first, void* second)) {
    bool swapped = true;
    int32_t i = 0;
    while (swapped) {
        swapped = false;
        for (int32_t j = 0; j < (number_of_elements - i - 1); ++j) {
            byte_t* left = &buffer[j * element_size];
            byte_t* right = left + element_size;
            if (compareFun(left, right)) {
                for (int32_t b = 0; b < element_size; ++b) {
                    const byte_t keep = left[b];
                    left[b] = right[b];
                    right[b] = keep;
                }
                swapped = true;
            }
        }
        ++i;
    }
}
''')
ref('insertion-bytes', 'C24', 'Src/sort/insertion_sort.c', InsertionSort_sort='''
static void
CopyElement(byte_t* to, const byte_t* from, int32_t size) {
    for (int32_t b = 0; b < size; ++b) {
        to[b] = from[b];
    }
}

void
InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                   bool (*compareFun)(void* first, void* second)) {
    static byte_t element[MAX_ELEMENT_SIZE];
    for (int32_t i = 1; i < number_of_elements; ++i) {
        CopyElement(element, &buffer[i * element_size], element_size);
        int32_t j = i - 1;
        while ((j >= 0) && compareFun(&buffer[j * element_size], element)) {
            CopyElement(&buffer[(j + 1) * element_size], &buffer[j * element_size], element_size);
            --j;
        }
        CopyElement(&buffer[(j + 1) * element_size], element, element_size);
    }
}
''')
ref('map-bytes', 'C18', 'Src/map.c', Map_getValue='''
bool
Map_getValue(const Map_t* map, const byte_t* key, byte_t* value) {
    bool status = false;
    if (map != NULL_PTR) {
        int32_t index = GetIndex(map, key, map->current_size);
        if (index != INDEX_NOT_FOUND) {
            const byte_t* from = &map->values[index * map->value_size];
            for (int32_t i = 0; i < map->value_size; i++) {
                value[i] = from[i];
            }
            status = true;
        }
    }
    return status;
}
''')
