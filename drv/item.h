/* value v <-> bytes of an item of any size: little-endian value, then a
 * pattern derived from it, so every byte of an item is checked on reading. */
static unsigned it_mix(unsigned k, size_t i) { unsigned x = k * 2654435761u + (unsigned)i * 40503u + 12345; x ^= x >> 13; x *= 2246822519u; x ^= x >> 15; return x & 255; }
static void it_enc(void *p, size_t n, unsigned k) {
	unsigned char *b = p;
	for(size_t i = 0; i < n; i++) b[i] = i < 4 ? k >> (8 * i) & 255 : it_mix(k, i);
}
static long it_dec(const void *p, size_t n) {
	const unsigned char *b = p; unsigned k = 0;
	for(size_t i = 0; i < n && i < 4; i++) k |= (unsigned)b[i] << (8 * i);
	for(size_t i = 4; i < n; i++) if(b[i] != it_mix(k, i)) return -7;
	return k > INT_MAX ? -9 : (long)k;
}
#define POSARG(p) ((p) > INT_MAX ? INT_MAX : (long)(p))
