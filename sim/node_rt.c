/* Stream accessors of one node; the user-supplied callbacks of streaming mode forward to the simulator. */
#include "nodeapi.h"
#include "asn1crt.h"
#include "asn1crt_encoding.h"
#include <string.h>
#ifdef VF_XER
#include "asn1crt_encoding_xer.h"
#endif
static void (*on_push_)(void*, void*);
static void (*on_fetch_)(void*, void*);
#ifdef ASN1SCC_STREAMING
void fetchData(BitStream* s, void* prm) { if (on_fetch_) on_fetch_(s, prm); }
void pushData(BitStream* s, void* prm) { if (on_push_) on_push_(s, prm); }
#endif
#ifdef VF_XER
typedef ByteStream S;
static void init_enc(void* s, uint8_t* b, long n, void* p) { (void)p; ByteStream_Init((S*)s, b, n); }
static void init_dec(void* s, uint8_t* b, long n, void* p) { (void)p; ByteStream_AttachBuffer((S*)s, b, n); ((S*)s)->EncodeWhiteSpace = FALSE; }
static int bit_(void* s) { (void)s; return 0; }
static void set_pos(void* s, long b, int i) { (void)i; ((S*)s)->currentByte = b; }
static void put_bit_(void* s, int v) { (void)s; (void)v; }
static int get_bit_(void* s, int* v) { (void)s; *v = 0; return 1; }
static int load_(const char* f, void* s, int* n) { return LoadXmlFile(f, (S*)s, n); }
static void ws_(void* s, int on) { ((S*)s)->EncodeWhiteSpace = on != 0; }
#else
typedef BitStream S;
static void init_enc(void* s, uint8_t* b, long n, void* p) { if (p) BitStream_Init2((S*)s, b, n, p, NULL); else BitStream_Init((S*)s, b, n); }
static void init_dec(void* s, uint8_t* b, long n, void* p) { if (p) BitStream_AttachBuffer2((S*)s, b, n, NULL, p); else BitStream_AttachBuffer((S*)s, b, n); }
static int bit_(void* s) { return ((S*)s)->currentBit; }
static void set_pos(void* s, long b, int i) { ((S*)s)->currentByte = b; ((S*)s)->currentBit = i; }
static void put_bit_(void* s, int v) { BitStream_AppendBit((S*)s, v != 0); }
static int get_bit_(void* s, int* v) { flag f = 0; flag r = BitStream_ReadBit((S*)s, &f); *v = f != 0; return r; }
static int load_(const char* f, void* s, int* n) { (void)f; (void)s; (void)n; return 0; }
static void ws_(void* s, int on) { (void)s; (void)on; }
#endif
static long byte_(void* s) { return ((S*)s)->currentByte; }
static long count_(void* s) { return ((S*)s)->count; }
static uint8_t* buf_(void* s) { return ((S*)s)->buf; }
static void set_count(void* s, long n) { ((S*)s)->count = n; }
NodeApi vf_api_base = {
    WORD_SIZE,
#ifdef ASN1SCC_STREAMING
    1,
#else
    0,
#endif
#ifdef VF_XER
    1,
#else
    0,
#endif
    0, 0, 0, sizeof(S), init_enc, init_dec, byte_, bit_, count_, buf_, set_count, set_pos, put_bit_, get_bit_,
    &on_push_, &on_fetch_, load_, ws_ };
