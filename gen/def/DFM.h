#ifndef GENERATED_ASN1SCC_DFM_H
#define GENERATED_ASN1SCC_DFM_H
/*
Code automatically generated by asn1scc tool
*/
#include "asn1crt.h"
#include "asn1crt_encoding.h"


#ifdef  __cplusplus
extern "C" {
#endif


/*-- DHdr --------------------------------------------*/
typedef asn1SccUint DHdr_v;

typedef asn1SccUint DHdr_e;

typedef struct {
    DHdr_v v;
    DHdr_e e;

} DHdr;

flag DHdr_v_Equal(const DHdr_v* pVal1, const DHdr_v* pVal2);

flag DHdr_e_Equal(const DHdr_e* pVal1, const DHdr_e* pVal2);

flag DHdr_Equal(const DHdr* pVal1, const DHdr* pVal2);

#define ERR_DHDR_V		1  /*(0..7)*/
flag DHdr_v_IsConstraintValid(const DHdr_v* pVal, int* pErrCode);

#define ERR_DHDR_E		6  /*(0..3)*/
flag DHdr_e_IsConstraintValid(const DHdr_e* pVal, int* pErrCode);

#define ERR_DHDR		11  /**/
flag DHdr_IsConstraintValid(const DHdr* pVal, int* pErrCode);

void DHdr_v_Initialize(DHdr_v* pVal);
void DHdr_e_Initialize(DHdr_e* pVal);
void DHdr_Initialize(DHdr* pVal);

#define DHdr_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define DHdr_REQUIRED_BITS_FOR_ACN_ENCODING        5

#define ERR_ACN_ENCODE_DHDR		14  /**/
#define ERR_ACN_ENCODE_DHDR_V		4  /**/
#define ERR_ACN_ENCODE_DHDR_E		9  /**/

flag DHdr_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DHDR		15  /**/
#define ERR_ACN_DECODE_DHDR_V		5  /**/
#define ERR_ACN_DECODE_DHDR_E		10  /**/
flag DHdr_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P5;


flag P5_Equal(const P5* pVal1, const P5* pVal2);

#define ERR_P5		16  /*(0..31)*/
flag P5_IsConstraintValid(const P5* pVal, int* pErrCode);

void P5_Initialize(P5* pVal);

#define P5_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define P5_REQUIRED_BITS_FOR_ACN_ENCODING        5

#define ERR_ACN_ENCODE_P5		19  /**/

flag P5_ACN_Encode(const P5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P5		20  /**/
flag P5_ACN_Decode(P5* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- QB --------------------------------------------*/


typedef struct {
    int nCount;
    P5 arr[9];
} QB_s;
typedef asn1SccUint QB_y;

typedef struct {
    flag x;
    QB_s s;
    QB_y y;

} QB;

flag QB_s_Equal(const QB_s* pVal1, const QB_s* pVal2);

flag QB_y_Equal(const QB_y* pVal1, const QB_y* pVal2);

flag QB_Equal(const QB* pVal1, const QB* pVal2);

#define ERR_QB_S		36  /*(SIZE(0..9))*/
#define ERR_QB_S_ELM_2		31  /**/
flag QB_s_IsConstraintValid(const QB_s* pVal, int* pErrCode);

#define ERR_QB_Y		41  /*(0..3)*/
flag QB_y_IsConstraintValid(const QB_y* pVal, int* pErrCode);

#define ERR_QB		46  /**/
#define ERR_QB_X		21  /**/
flag QB_IsConstraintValid(const QB* pVal, int* pErrCode);

void QB_s_Initialize(QB_s* pVal);
void QB_y_Initialize(QB_y* pVal);
void QB_Initialize(QB* pVal);

#define QB_REQUIRED_BYTES_FOR_ACN_ENCODING       6
#define QB_REQUIRED_BITS_FOR_ACN_ENCODING        48
/*-- DW5 --------------------------------------------*/
typedef asn1SccUint DW5_t;

typedef struct {
    DHdr h;
    flag m;
    QB b;
    DW5_t t;

} DW5;

flag DW5_t_Equal(const DW5_t* pVal1, const DW5_t* pVal2);

flag DW5_Equal(const DW5* pVal1, const DW5* pVal2);

#define ERR_DW5_T		109  /*(0..31)*/
flag DW5_t_IsConstraintValid(const DW5_t* pVal, int* pErrCode);

#define ERR_DW5		114  /**/
#define ERR_DW5_H_2		68  /**/
#define ERR_DW5_M		71  /**/
#define ERR_DW5_B_2		106  /**/
flag DW5_IsConstraintValid(const DW5* pVal, int* pErrCode);

void DW5_t_Initialize(DW5_t* pVal);
void DW5_Initialize(DW5* pVal);

#define DW5_REQUIRED_BYTES_FOR_ACN_ENCODING       8
#define DW5_REQUIRED_BITS_FOR_ACN_ENCODING        64

#define ERR_ACN_ENCODE_DW5		117  /**/
#define ERR_ACN_ENCODE_DW5_H		66  /**/
#define ERR_ACN_ENCODE_DW5_H_V		54  /**/
#define ERR_ACN_ENCODE_DW5_H_N_UNINITIALIZED		118  /**/
#define ERR_ACN_ENCODE_DW5_H_N		56  /**/
#define ERR_ACN_ENCODE_DW5_H_E		61  /**/
#define ERR_ACN_ENCODE_DW5_M		74  /**/
#define ERR_ACN_ENCODE_DW5_B		104  /**/
#define ERR_ACN_ENCODE_DW5_B_X		79  /**/
#define ERR_ACN_ENCODE_DW5_B_S		94  /**/
#define ERR_ACN_ENCODE_DW5_B_S_ELM_2		89  /**/
#define ERR_ACN_ENCODE_DW5_B_Y		99  /**/
#define ERR_ACN_ENCODE_DW5_T		112  /**/

flag DW5_ACN_Encode(const DW5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW5		119  /**/
#define ERR_ACN_DECODE_DW5_H		67  /**/
#define ERR_ACN_DECODE_DW5_H_V		55  /**/
#define ERR_ACN_DECODE_DW5_H_N		57  /**/
#define ERR_ACN_DECODE_DW5_H_E		62  /**/
#define ERR_ACN_DECODE_DW5_M		75  /**/
#define ERR_ACN_DECODE_DW5_B		105  /**/
#define ERR_ACN_DECODE_DW5_B_X		80  /**/
#define ERR_ACN_DECODE_DW5_B_S		95  /**/
#define ERR_ACN_DECODE_DW5_B_S_ELM_2		90  /**/
#define ERR_ACN_DECODE_DW5_B_Y		100  /**/
#define ERR_ACN_DECODE_DW5_T		113  /**/
flag DW5_ACN_Decode(DW5* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DW16 --------------------------------------------*/
typedef asn1SccUint DW16_t;

typedef struct {
    DHdr h;
    flag m;
    QB b;
    DW16_t t;

} DW16;

flag DW16_t_Equal(const DW16_t* pVal1, const DW16_t* pVal2);

flag DW16_Equal(const DW16* pVal1, const DW16* pVal2);

#define ERR_DW16_T		178  /*(0..31)*/
flag DW16_t_IsConstraintValid(const DW16_t* pVal, int* pErrCode);

#define ERR_DW16		183  /**/
#define ERR_DW16_H_2		137  /**/
#define ERR_DW16_M		140  /**/
#define ERR_DW16_B_2		175  /**/
flag DW16_IsConstraintValid(const DW16* pVal, int* pErrCode);

void DW16_t_Initialize(DW16_t* pVal);
void DW16_Initialize(DW16* pVal);

#define DW16_REQUIRED_BYTES_FOR_ACN_ENCODING       10
#define DW16_REQUIRED_BITS_FOR_ACN_ENCODING        75

#define ERR_ACN_ENCODE_DW16		186  /**/
#define ERR_ACN_ENCODE_DW16_H		135  /**/
#define ERR_ACN_ENCODE_DW16_H_V		123  /**/
#define ERR_ACN_ENCODE_DW16_H_N_UNINITIALIZED		187  /**/
#define ERR_ACN_ENCODE_DW16_H_N		125  /**/
#define ERR_ACN_ENCODE_DW16_H_E		130  /**/
#define ERR_ACN_ENCODE_DW16_M		143  /**/
#define ERR_ACN_ENCODE_DW16_B		173  /**/
#define ERR_ACN_ENCODE_DW16_B_X		148  /**/
#define ERR_ACN_ENCODE_DW16_B_S		163  /**/
#define ERR_ACN_ENCODE_DW16_B_S_ELM_2		158  /**/
#define ERR_ACN_ENCODE_DW16_B_Y		168  /**/
#define ERR_ACN_ENCODE_DW16_T		181  /**/

flag DW16_ACN_Encode(const DW16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW16		188  /**/
#define ERR_ACN_DECODE_DW16_H		136  /**/
#define ERR_ACN_DECODE_DW16_H_V		124  /**/
#define ERR_ACN_DECODE_DW16_H_N		126  /**/
#define ERR_ACN_DECODE_DW16_H_E		131  /**/
#define ERR_ACN_DECODE_DW16_M		144  /**/
#define ERR_ACN_DECODE_DW16_B		174  /**/
#define ERR_ACN_DECODE_DW16_B_X		149  /**/
#define ERR_ACN_DECODE_DW16_B_S		164  /**/
#define ERR_ACN_DECODE_DW16_B_S_ELM_2		159  /**/
#define ERR_ACN_DECODE_DW16_B_Y		169  /**/
#define ERR_ACN_DECODE_DW16_T		182  /**/
flag DW16_ACN_Decode(DW16* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DW64 --------------------------------------------*/
typedef asn1SccUint DW64_t;

typedef struct {
    DHdr h;
    flag m;
    QB b;
    DW64_t t;

} DW64;

flag DW64_t_Equal(const DW64_t* pVal1, const DW64_t* pVal2);

flag DW64_Equal(const DW64* pVal1, const DW64* pVal2);

#define ERR_DW64_T		247  /*(0..31)*/
flag DW64_t_IsConstraintValid(const DW64_t* pVal, int* pErrCode);

#define ERR_DW64		252  /**/
#define ERR_DW64_H_2		206  /**/
#define ERR_DW64_M		209  /**/
#define ERR_DW64_B_2		244  /**/
flag DW64_IsConstraintValid(const DW64* pVal, int* pErrCode);

void DW64_t_Initialize(DW64_t* pVal);
void DW64_Initialize(DW64* pVal);

#define DW64_REQUIRED_BYTES_FOR_ACN_ENCODING       16
#define DW64_REQUIRED_BITS_FOR_ACN_ENCODING        123

#define ERR_ACN_ENCODE_DW64		255  /**/
#define ERR_ACN_ENCODE_DW64_H		204  /**/
#define ERR_ACN_ENCODE_DW64_H_V		192  /**/
#define ERR_ACN_ENCODE_DW64_H_N_UNINITIALIZED		256  /**/
#define ERR_ACN_ENCODE_DW64_H_N		194  /**/
#define ERR_ACN_ENCODE_DW64_H_E		199  /**/
#define ERR_ACN_ENCODE_DW64_M		212  /**/
#define ERR_ACN_ENCODE_DW64_B		242  /**/
#define ERR_ACN_ENCODE_DW64_B_X		217  /**/
#define ERR_ACN_ENCODE_DW64_B_S		232  /**/
#define ERR_ACN_ENCODE_DW64_B_S_ELM_2		227  /**/
#define ERR_ACN_ENCODE_DW64_B_Y		237  /**/
#define ERR_ACN_ENCODE_DW64_T		250  /**/

flag DW64_ACN_Encode(const DW64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW64		257  /**/
#define ERR_ACN_DECODE_DW64_H		205  /**/
#define ERR_ACN_DECODE_DW64_H_V		193  /**/
#define ERR_ACN_DECODE_DW64_H_N		195  /**/
#define ERR_ACN_DECODE_DW64_H_E		200  /**/
#define ERR_ACN_DECODE_DW64_M		213  /**/
#define ERR_ACN_DECODE_DW64_B		243  /**/
#define ERR_ACN_DECODE_DW64_B_X		218  /**/
#define ERR_ACN_DECODE_DW64_B_S		233  /**/
#define ERR_ACN_DECODE_DW64_B_S_ELM_2		228  /**/
#define ERR_ACN_DECODE_DW64_B_Y		238  /**/
#define ERR_ACN_DECODE_DW64_T		251  /**/
flag DW64_ACN_Decode(DW64* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DI11 --------------------------------------------*/
typedef asn1SccUint DI11_t;

typedef struct {
    DHdr h;
    flag m;
    QB b;
    DI11_t t;

} DI11;

flag DI11_t_Equal(const DI11_t* pVal1, const DI11_t* pVal2);

flag DI11_Equal(const DI11* pVal1, const DI11* pVal2);

#define ERR_DI11_T		316  /*(0..31)*/
flag DI11_t_IsConstraintValid(const DI11_t* pVal, int* pErrCode);

#define ERR_DI11		321  /**/
#define ERR_DI11_H_2		275  /**/
#define ERR_DI11_M		278  /**/
#define ERR_DI11_B_2		313  /**/
flag DI11_IsConstraintValid(const DI11* pVal, int* pErrCode);

void DI11_t_Initialize(DI11_t* pVal);
void DI11_Initialize(DI11* pVal);

#define DI11_REQUIRED_BYTES_FOR_ACN_ENCODING       9
#define DI11_REQUIRED_BITS_FOR_ACN_ENCODING        70

#define ERR_ACN_ENCODE_DI11		324  /**/
#define ERR_ACN_ENCODE_DI11_H		273  /**/
#define ERR_ACN_ENCODE_DI11_H_V		261  /**/
#define ERR_ACN_ENCODE_DI11_H_N_UNINITIALIZED		325  /**/
#define ERR_ACN_ENCODE_DI11_H_N		263  /**/
#define ERR_ACN_ENCODE_DI11_H_E		268  /**/
#define ERR_ACN_ENCODE_DI11_M		281  /**/
#define ERR_ACN_ENCODE_DI11_B		311  /**/
#define ERR_ACN_ENCODE_DI11_B_X		286  /**/
#define ERR_ACN_ENCODE_DI11_B_S		301  /**/
#define ERR_ACN_ENCODE_DI11_B_S_ELM_2		296  /**/
#define ERR_ACN_ENCODE_DI11_B_Y		306  /**/
#define ERR_ACN_ENCODE_DI11_T		319  /**/

flag DI11_ACN_Encode(const DI11* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DI11		326  /**/
#define ERR_ACN_DECODE_DI11_H		274  /**/
#define ERR_ACN_DECODE_DI11_H_V		262  /**/
#define ERR_ACN_DECODE_DI11_H_N		264  /**/
#define ERR_ACN_DECODE_DI11_H_E		269  /**/
#define ERR_ACN_DECODE_DI11_M		282  /**/
#define ERR_ACN_DECODE_DI11_B		312  /**/
#define ERR_ACN_DECODE_DI11_B_X		287  /**/
#define ERR_ACN_DECODE_DI11_B_S		302  /**/
#define ERR_ACN_DECODE_DI11_B_S_ELM_2		297  /**/
#define ERR_ACN_DECODE_DI11_B_Y		307  /**/
#define ERR_ACN_DECODE_DI11_T		320  /**/
flag DI11_ACN_Decode(DI11* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CQ --------------------------------------------*/
typedef asn1SccUint CQ_a;

typedef struct {
    unsigned long c:1;
} CQ_exist;
typedef struct {
    CQ_a a;
    flag b;
    P5 c;

    CQ_exist exist;

} CQ;

flag CQ_a_Equal(const CQ_a* pVal1, const CQ_a* pVal2);

flag CQ_Equal(const CQ* pVal1, const CQ* pVal2);

#define ERR_CQ_A		327  /*(0..7)*/
flag CQ_a_IsConstraintValid(const CQ_a* pVal, int* pErrCode);

#define ERR_CQ		347  /**/
#define ERR_CQ_B		332  /**/
#define ERR_CQ_C_2		342  /**/
flag CQ_IsConstraintValid(const CQ* pVal, int* pErrCode);

void CQ_a_Initialize(CQ_a* pVal);
void CQ_Initialize(CQ* pVal);

#define CQ_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define CQ_REQUIRED_BITS_FOR_ACN_ENCODING        10

#define ERR_ACN_ENCODE_CQ		350  /**/
#define ERR_ACN_ENCODE_CQ_A		330  /**/
#define ERR_ACN_ENCODE_CQ_B		335  /**/
#define ERR_ACN_ENCODE_CQ_C_2		345  /**/

flag CQ_ACN_Encode(const CQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CQ		351  /**/
#define ERR_ACN_DECODE_CQ_A		331  /**/
#define ERR_ACN_DECODE_CQ_B		336  /**/
#define ERR_ACN_DECODE_CQ_C_2		346  /**/
flag CQ_ACN_Decode(CQ* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DCoQ --------------------------------------------*/
typedef asn1SccUint DCoQ_t;

typedef struct {
    DHdr h;
    CQ p;
    DCoQ_t t;

} DCoQ;

flag DCoQ_t_Equal(const DCoQ_t* pVal1, const DCoQ_t* pVal2);

flag DCoQ_Equal(const DCoQ* pVal1, const DCoQ* pVal2);

#define ERR_DCOQ_T		402  /*(0..31)*/
flag DCoQ_t_IsConstraintValid(const DCoQ_t* pVal, int* pErrCode);

#define ERR_DCOQ		407  /**/
#define ERR_DCOQ_H_2		399  /**/
#define ERR_DCOQ_P_2		377  /**/
flag DCoQ_IsConstraintValid(const DCoQ* pVal, int* pErrCode);

void DCoQ_t_Initialize(DCoQ_t* pVal);
void DCoQ_Initialize(DCoQ* pVal);

#define DCoQ_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define DCoQ_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_DCOQ		410  /**/
#define ERR_ACN_ENCODE_DCOQ_H		397  /**/
#define ERR_ACN_ENCODE_DCOQ_H_V		385  /**/
#define ERR_ACN_ENCODE_DCOQ_P		375  /**/
#define ERR_ACN_ENCODE_DCOQ_P_A		355  /**/
#define ERR_ACN_ENCODE_DCOQ_P_B		360  /**/
#define ERR_ACN_ENCODE_DCOQ_P_C_2		370  /**/
#define ERR_ACN_ENCODE_DCOQ_H_LEN_UNINITIALIZED		411  /**/
#define ERR_ACN_ENCODE_DCOQ_H_LEN		387  /**/
#define ERR_ACN_ENCODE_DCOQ_H_E		392  /**/
#define ERR_ACN_ENCODE_DCOQ_P_2		380  /**/
#define ERR_ACN_ENCODE_DCOQ_T		405  /**/

flag DCoQ_ACN_Encode(const DCoQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCOQ		412  /**/
#define ERR_ACN_DECODE_DCOQ_H		398  /**/
#define ERR_ACN_DECODE_DCOQ_H_V		386  /**/
#define ERR_ACN_DECODE_DCOQ_H_LEN		388  /**/
#define ERR_ACN_DECODE_DCOQ_H_E		393  /**/
#define ERR_ACN_DECODE_DCOQ_P_2		381  /**/
#define ERR_ACN_DECODE_DCOQ_P		376  /**/
#define ERR_ACN_DECODE_DCOQ_P_A		356  /**/
#define ERR_ACN_DECODE_DCOQ_P_B		361  /**/
#define ERR_ACN_DECODE_DCOQ_P_C_2		371  /**/
#define ERR_ACN_DECODE_DCOQ_T		406  /**/
flag DCoQ_ACN_Decode(DCoQ* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DCoB --------------------------------------------*/
typedef asn1SccUint DCoB_t;

typedef struct {
    DHdr h;
    CQ p;
    DCoB_t t;

} DCoB;

flag DCoB_t_Equal(const DCoB_t* pVal1, const DCoB_t* pVal2);

flag DCoB_Equal(const DCoB* pVal1, const DCoB* pVal2);

#define ERR_DCOB_T		463  /*(0..31)*/
flag DCoB_t_IsConstraintValid(const DCoB_t* pVal, int* pErrCode);

#define ERR_DCOB		468  /**/
#define ERR_DCOB_H_2		460  /**/
#define ERR_DCOB_P_2		438  /**/
flag DCoB_IsConstraintValid(const DCoB* pVal, int* pErrCode);

void DCoB_t_Initialize(DCoB_t* pVal);
void DCoB_Initialize(DCoB* pVal);

#define DCoB_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define DCoB_REQUIRED_BITS_FOR_ACN_ENCODING        26

#define ERR_ACN_ENCODE_DCOB		471  /**/
#define ERR_ACN_ENCODE_DCOB_H		458  /**/
#define ERR_ACN_ENCODE_DCOB_H_V		446  /**/
#define ERR_ACN_ENCODE_DCOB_P		436  /**/
#define ERR_ACN_ENCODE_DCOB_P_A		416  /**/
#define ERR_ACN_ENCODE_DCOB_P_B		421  /**/
#define ERR_ACN_ENCODE_DCOB_P_C_2		431  /**/
#define ERR_ACN_ENCODE_DCOB_H_LEN_UNINITIALIZED		472  /**/
#define ERR_ACN_ENCODE_DCOB_H_LEN		448  /**/
#define ERR_ACN_ENCODE_DCOB_H_E		453  /**/
#define ERR_ACN_ENCODE_DCOB_P_2		441  /**/
#define ERR_ACN_ENCODE_DCOB_T		466  /**/

flag DCoB_ACN_Encode(const DCoB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCOB		473  /**/
#define ERR_ACN_DECODE_DCOB_H		459  /**/
#define ERR_ACN_DECODE_DCOB_H_V		447  /**/
#define ERR_ACN_DECODE_DCOB_H_LEN		449  /**/
#define ERR_ACN_DECODE_DCOB_H_E		454  /**/
#define ERR_ACN_DECODE_DCOB_P_2		442  /**/
#define ERR_ACN_DECODE_DCOB_T		467  /**/
flag DCoB_ACN_Decode(DCoB* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P8;


flag P8_Equal(const P8* pVal1, const P8* pVal2);

#define ERR_P8		474  /*(0..255)*/
flag P8_IsConstraintValid(const P8* pVal, int* pErrCode);

void P8_Initialize(P8* pVal);

#define P8_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define P8_REQUIRED_BITS_FOR_ACN_ENCODING        8

#define ERR_ACN_ENCODE_P8		477  /**/

flag P8_ACN_Encode(const P8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P8		478  /**/
flag P8_ACN_Decode(P8* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- PB --------------------------------------------*/
typedef asn1SccUint PB_x;

typedef struct {
    unsigned long o:1;
} PB_exist;
typedef struct {
    PB_x x;
    P8 o;
    flag z;

    PB_exist exist;

} PB;

flag PB_x_Equal(const PB_x* pVal1, const PB_x* pVal2);

flag PB_Equal(const PB* pVal1, const PB* pVal2);

#define ERR_PB_X		479  /*(0..7)*/
flag PB_x_IsConstraintValid(const PB_x* pVal, int* pErrCode);

#define ERR_PB		497  /**/
#define ERR_PB_O_2		489  /**/
#define ERR_PB_Z		492  /**/
flag PB_IsConstraintValid(const PB* pVal, int* pErrCode);

void PB_x_Initialize(PB_x* pVal);
void PB_Initialize(PB* pVal);

#define PB_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define PB_REQUIRED_BITS_FOR_ACN_ENCODING        12
/*-- DPrB --------------------------------------------*/
typedef asn1SccUint DPrB_t;

typedef struct {
    DHdr h;
    flag m;
    PB b;
    DPrB_t t;

} DPrB;

flag DPrB_t_Equal(const DPrB_t* pVal1, const DPrB_t* pVal2);

flag DPrB_Equal(const DPrB* pVal1, const DPrB* pVal2);

#define ERR_DPRB_T		553  /*(0..31)*/
flag DPrB_t_IsConstraintValid(const DPrB_t* pVal, int* pErrCode);

#define ERR_DPRB		558  /**/
#define ERR_DPRB_H_2		519  /**/
#define ERR_DPRB_M		522  /**/
#define ERR_DPRB_B_2		550  /**/
flag DPrB_IsConstraintValid(const DPrB* pVal, int* pErrCode);

void DPrB_t_Initialize(DPrB_t* pVal);
void DPrB_Initialize(DPrB* pVal);

#define DPrB_REQUIRED_BYTES_FOR_ACN_ENCODING       3
#define DPrB_REQUIRED_BITS_FOR_ACN_ENCODING        24

#define ERR_ACN_ENCODE_DPRB		561  /**/
#define ERR_ACN_ENCODE_DPRB_H		517  /**/
#define ERR_ACN_ENCODE_DPRB_H_V		505  /**/
#define ERR_ACN_ENCODE_DPRB_H_F_UNINITIALIZED		562  /**/
#define ERR_ACN_ENCODE_DPRB_H_F		507  /**/
#define ERR_ACN_ENCODE_DPRB_H_E		512  /**/
#define ERR_ACN_ENCODE_DPRB_M		525  /**/
#define ERR_ACN_ENCODE_DPRB_B		548  /**/
#define ERR_ACN_ENCODE_DPRB_B_X		530  /**/
#define ERR_ACN_ENCODE_DPRB_B_O		535  /**/
#define ERR_ACN_ENCODE_DPRB_B_Z		543  /**/
#define ERR_ACN_ENCODE_DPRB_T		556  /**/

flag DPrB_ACN_Encode(const DPrB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DPRB		563  /**/
#define ERR_ACN_DECODE_DPRB_H		518  /**/
#define ERR_ACN_DECODE_DPRB_H_V		506  /**/
#define ERR_ACN_DECODE_DPRB_H_F		508  /**/
#define ERR_ACN_DECODE_DPRB_H_E		513  /**/
#define ERR_ACN_DECODE_DPRB_M		526  /**/
#define ERR_ACN_DECODE_DPRB_B		549  /**/
#define ERR_ACN_DECODE_DPRB_B_X		531  /**/
#define ERR_ACN_DECODE_DPRB_B_O		536  /**/
#define ERR_ACN_DECODE_DPRB_B_Z		544  /**/
#define ERR_ACN_DECODE_DPRB_T		557  /**/
flag DPrB_ACN_Decode(DPrB* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DShP --------------------------------------------*/
typedef asn1SccUint DShP_t;

typedef struct {
    DHdr h;
    PB b;
    PB c;
    DShP_t t;

} DShP;

flag DShP_t_Equal(const DShP_t* pVal1, const DShP_t* pVal2);

flag DShP_Equal(const DShP* pVal1, const DShP* pVal2);

#define ERR_DSHP_T		637  /*(0..31)*/
flag DShP_t_IsConstraintValid(const DShP_t* pVal, int* pErrCode);

#define ERR_DSHP		642  /**/
#define ERR_DSHP_H_2		582  /**/
#define ERR_DSHP_B_2		608  /**/
#define ERR_DSHP_C_2		634  /**/
flag DShP_IsConstraintValid(const DShP* pVal, int* pErrCode);

void DShP_t_Initialize(DShP_t* pVal);
void DShP_Initialize(DShP* pVal);

#define DShP_REQUIRED_BYTES_FOR_ACN_ENCODING       5
#define DShP_REQUIRED_BITS_FOR_ACN_ENCODING        35

#define ERR_ACN_ENCODE_DSHP		645  /**/
#define ERR_ACN_ENCODE_DSHP_H		580  /**/
#define ERR_ACN_ENCODE_DSHP_H_V		567  /**/
#define ERR_ACN_ENCODE_UPDATE_DSHP_H_F		571  /**/
#define ERR_ACN_ENCODE_DSHP_H_F_UNINITIALIZED		646  /**/
#define ERR_ACN_ENCODE_DSHP_H_F		569  /**/
#define ERR_ACN_ENCODE_DSHP_H_E		575  /**/
#define ERR_ACN_ENCODE_DSHP_B		606  /**/
#define ERR_ACN_ENCODE_DSHP_B_X		588  /**/
#define ERR_ACN_ENCODE_DSHP_B_O		593  /**/
#define ERR_ACN_ENCODE_DSHP_B_Z		601  /**/
#define ERR_ACN_ENCODE_DSHP_C		632  /**/
#define ERR_ACN_ENCODE_DSHP_C_X		614  /**/
#define ERR_ACN_ENCODE_DSHP_C_O		619  /**/
#define ERR_ACN_ENCODE_DSHP_C_Z		627  /**/
#define ERR_ACN_ENCODE_DSHP_T		640  /**/

flag DShP_ACN_Encode(const DShP* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DSHP		647  /**/
#define ERR_ACN_DECODE_DSHP_H		581  /**/
#define ERR_ACN_DECODE_DSHP_H_V		568  /**/
#define ERR_ACN_DECODE_DSHP_H_F		570  /**/
#define ERR_ACN_DECODE_DSHP_H_E		576  /**/
#define ERR_ACN_DECODE_DSHP_B		607  /**/
#define ERR_ACN_DECODE_DSHP_B_X		589  /**/
#define ERR_ACN_DECODE_DSHP_B_O		594  /**/
#define ERR_ACN_DECODE_DSHP_B_Z		602  /**/
#define ERR_ACN_DECODE_DSHP_C		633  /**/
#define ERR_ACN_DECODE_DSHP_C_X		615  /**/
#define ERR_ACN_DECODE_DSHP_C_O		620  /**/
#define ERR_ACN_DECODE_DSHP_C_Z		628  /**/
#define ERR_ACN_DECODE_DSHP_T		641  /**/
flag DShP_ACN_Decode(DShP* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- PCI --------------------------------------------*/
typedef struct {
    int nCount;
    byte arr[9];
} PCI_w3;


typedef enum {
    PCI_NONE,
    w1_PRESENT,
    w2_PRESENT,
    w3_PRESENT
} PCI_selection;

typedef union {
    P8 w1;
    flag w2;
    PCI_w3 w3;
} PCI_unchecked_union;

typedef struct {
    PCI_selection kind;

    PCI_unchecked_union u;
} PCI;

flag PCI_w3_Equal(const PCI_w3* pVal1, const PCI_w3* pVal2);

flag PCI_Equal(const PCI* pVal1, const PCI* pVal2);

#define ERR_PCI_W3		661  /*(SIZE(0..9))*/
flag PCI_w3_IsConstraintValid(const PCI_w3* pVal, int* pErrCode);

#define ERR_PCI		666  /**/
#define ERR_PCI_W1_2		653  /**/
#define ERR_PCI_W2		656  /**/
flag PCI_IsConstraintValid(const PCI* pVal, int* pErrCode);

void PCI_w3_Initialize(PCI_w3* pVal);
void PCI_Initialize(PCI* pVal);

#define PCI_REQUIRED_BYTES_FOR_ACN_ENCODING       10
#define PCI_REQUIRED_BITS_FOR_ACN_ENCODING        76
/*-- DChI --------------------------------------------*/
typedef asn1SccUint DChI_t;

typedef struct {
    DHdr h;
    flag m;
    PCI b;
    DChI_t t;

} DChI;

flag DChI_t_Equal(const DChI_t* pVal1, const DChI_t* pVal2);

flag DChI_Equal(const DChI* pVal1, const DChI* pVal2);

#define ERR_DCHI_T		722  /*(0..31)*/
flag DChI_t_IsConstraintValid(const DChI_t* pVal, int* pErrCode);

#define ERR_DCHI		727  /**/
#define ERR_DCHI_H_2		688  /**/
#define ERR_DCHI_M		691  /**/
#define ERR_DCHI_B_2		719  /**/
flag DChI_IsConstraintValid(const DChI* pVal, int* pErrCode);

void DChI_t_Initialize(DChI_t* pVal);
void DChI_Initialize(DChI* pVal);

#define DChI_REQUIRED_BYTES_FOR_ACN_ENCODING       12
#define DChI_REQUIRED_BITS_FOR_ACN_ENCODING        95

#define ERR_ACN_ENCODE_DCHI		730  /**/
#define ERR_ACN_ENCODE_DCHI_H		686  /**/
#define ERR_ACN_ENCODE_DCHI_H_V		674  /**/
#define ERR_ACN_ENCODE_DCHI_H_K_UNINITIALIZED		731  /**/
#define ERR_ACN_ENCODE_DCHI_H_K		676  /**/
#define ERR_ACN_ENCODE_DCHI_H_E		681  /**/
#define ERR_ACN_ENCODE_DCHI_M		694  /**/
#define ERR_ACN_ENCODE_DCHI_B		717  /**/
#define ERR_ACN_ENCODE_DCHI_B_W1		699  /**/
#define ERR_ACN_ENCODE_DCHI_B_W2		707  /**/
#define ERR_ACN_ENCODE_DCHI_B_W3		712  /**/
#define ERR_ACN_ENCODE_DCHI_T		725  /**/

flag DChI_ACN_Encode(const DChI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCHI		732  /**/
#define ERR_ACN_DECODE_DCHI_H		687  /**/
#define ERR_ACN_DECODE_DCHI_H_V		675  /**/
#define ERR_ACN_DECODE_DCHI_H_K		677  /**/
#define ERR_ACN_DECODE_DCHI_H_E		682  /**/
#define ERR_ACN_DECODE_DCHI_M		695  /**/
#define ERR_ACN_DECODE_DCHI_B		718  /**/
#define ERR_ACN_DECODE_DCHI_B_W1		700  /**/
#define ERR_ACN_DECODE_DCHI_B_W2		708  /**/
#define ERR_ACN_DECODE_DCHI_B_W3		713  /**/
#define ERR_ACN_DECODE_DCHI_T		726  /**/
flag DChI_ACN_Decode(DChI* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DShC --------------------------------------------*/
typedef asn1SccUint DShC_t;

typedef struct {
    DHdr h;
    PCI b;
    PCI c;
    DShC_t t;

} DShC;

flag DShC_t_Equal(const DShC_t* pVal1, const DShC_t* pVal2);

flag DShC_Equal(const DShC* pVal1, const DShC* pVal2);

#define ERR_DSHC_T		806  /*(0..31)*/
flag DShC_t_IsConstraintValid(const DShC_t* pVal, int* pErrCode);

#define ERR_DSHC		811  /**/
#define ERR_DSHC_H_2		751  /**/
#define ERR_DSHC_B_2		777  /**/
#define ERR_DSHC_C_2		803  /**/
flag DShC_IsConstraintValid(const DShC* pVal, int* pErrCode);

void DShC_t_Initialize(DShC_t* pVal);
void DShC_Initialize(DShC* pVal);

#define DShC_REQUIRED_BYTES_FOR_ACN_ENCODING       22
#define DShC_REQUIRED_BITS_FOR_ACN_ENCODING        170

#define ERR_ACN_ENCODE_DSHC		814  /**/
#define ERR_ACN_ENCODE_DSHC_H		749  /**/
#define ERR_ACN_ENCODE_DSHC_H_V		736  /**/
#define ERR_ACN_ENCODE_UPDATE_DSHC_H_K		740  /**/
#define ERR_ACN_ENCODE_DSHC_H_K_UNINITIALIZED		815  /**/
#define ERR_ACN_ENCODE_DSHC_H_K		738  /**/
#define ERR_ACN_ENCODE_DSHC_H_E		744  /**/
#define ERR_ACN_ENCODE_DSHC_B		775  /**/
#define ERR_ACN_ENCODE_DSHC_B_W1		757  /**/
#define ERR_ACN_ENCODE_DSHC_B_W2		765  /**/
#define ERR_ACN_ENCODE_DSHC_B_W3		770  /**/
#define ERR_ACN_ENCODE_DSHC_C		801  /**/
#define ERR_ACN_ENCODE_DSHC_C_W1		783  /**/
#define ERR_ACN_ENCODE_DSHC_C_W2		791  /**/
#define ERR_ACN_ENCODE_DSHC_C_W3		796  /**/
#define ERR_ACN_ENCODE_DSHC_T		809  /**/

flag DShC_ACN_Encode(const DShC* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DSHC		816  /**/
#define ERR_ACN_DECODE_DSHC_H		750  /**/
#define ERR_ACN_DECODE_DSHC_H_V		737  /**/
#define ERR_ACN_DECODE_DSHC_H_K		739  /**/
#define ERR_ACN_DECODE_DSHC_H_E		745  /**/
#define ERR_ACN_DECODE_DSHC_B		776  /**/
#define ERR_ACN_DECODE_DSHC_B_W1		758  /**/
#define ERR_ACN_DECODE_DSHC_B_W2		766  /**/
#define ERR_ACN_DECODE_DSHC_B_W3		771  /**/
#define ERR_ACN_DECODE_DSHC_C		802  /**/
#define ERR_ACN_DECODE_DSHC_C_W1		784  /**/
#define ERR_ACN_DECODE_DSHC_C_W2		792  /**/
#define ERR_ACN_DECODE_DSHC_C_W3		797  /**/
#define ERR_ACN_DECODE_DSHC_T		810  /**/
flag DShC_ACN_Decode(DShC* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P32;


flag P32_Equal(const P32* pVal1, const P32* pVal2);

#define ERR_P32		817  /*(0..4294967295)*/
flag P32_IsConstraintValid(const P32* pVal, int* pErrCode);

void P32_Initialize(P32* pVal);

#define P32_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define P32_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_P32		820  /**/

flag P32_ACN_Encode(const P32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P32		821  /**/
flag P32_ACN_Decode(P32* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CP --------------------------------------------*/
typedef struct {
    int nCount;
    byte arr[30];
} CP_b;

typedef struct {
    P32 a;
    CP_b b;
    P8 c;

} CP;

flag CP_b_Equal(const CP_b* pVal1, const CP_b* pVal2);

flag CP_Equal(const CP* pVal1, const CP* pVal2);

#define ERR_CP_B		832  /*(SIZE(0..30))*/
flag CP_b_IsConstraintValid(const CP_b* pVal, int* pErrCode);

#define ERR_CP		847  /**/
#define ERR_CP_A_2		827  /**/
#define ERR_CP_C_2		842  /**/
flag CP_IsConstraintValid(const CP* pVal, int* pErrCode);

void CP_b_Initialize(CP_b* pVal);
void CP_Initialize(CP* pVal);

#define CP_REQUIRED_BYTES_FOR_ACN_ENCODING       35
#define CP_REQUIRED_BITS_FOR_ACN_ENCODING        280
/*-- DCo --------------------------------------------*/
typedef asn1SccUint DCo_t;

typedef struct {
    DHdr h;
    CP p;
    DCo_t t;

} DCo;

flag DCo_t_Equal(const DCo_t* pVal1, const DCo_t* pVal2);

flag DCo_Equal(const DCo* pVal1, const DCo* pVal2);

#define ERR_DCO_T		909  /*(0..31)*/
flag DCo_t_IsConstraintValid(const DCo_t* pVal, int* pErrCode);

#define ERR_DCO		914  /**/
#define ERR_DCO_H_2		906  /**/
#define ERR_DCO_P_2		882  /**/
flag DCo_IsConstraintValid(const DCo* pVal, int* pErrCode);

void DCo_t_Initialize(DCo_t* pVal);
void DCo_Initialize(DCo* pVal);

#define DCo_REQUIRED_BYTES_FOR_ACN_ENCODING       40
#define DCo_REQUIRED_BITS_FOR_ACN_ENCODING        314

#define ERR_ACN_ENCODE_DCO		917  /**/
#define ERR_ACN_ENCODE_DCO_H		904  /**/
#define ERR_ACN_ENCODE_DCO_H_V		890  /**/
#define ERR_ACN_ENCODE_DCO_P		880  /**/
#define ERR_ACN_ENCODE_DCO_P_A_2		860  /**/
#define ERR_ACN_ENCODE_DCO_P_B		865  /**/
#define ERR_ACN_ENCODE_DCO_P_C_2		875  /**/
#define ERR_ACN_ENCODE_DCO_H_LEN_UNINITIALIZED		918  /**/
#define ERR_ACN_ENCODE_DCO_H_LEN		892  /**/
#define ERR_ACN_ENCODE_DCO_H_N_UNINITIALIZED		919  /**/
#define ERR_ACN_ENCODE_DCO_H_N		894  /**/
#define ERR_ACN_ENCODE_DCO_H_E		899  /**/
#define ERR_ACN_ENCODE_DCO_P_2		885  /**/
#define ERR_ACN_ENCODE_DCO_T		912  /**/

flag DCo_ACN_Encode(const DCo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCO		920  /**/
#define ERR_ACN_DECODE_DCO_H		905  /**/
#define ERR_ACN_DECODE_DCO_H_V		891  /**/
#define ERR_ACN_DECODE_DCO_H_LEN		893  /**/
#define ERR_ACN_DECODE_DCO_H_N		895  /**/
#define ERR_ACN_DECODE_DCO_H_E		900  /**/
#define ERR_ACN_DECODE_DCO_P_2		886  /**/
#define ERR_ACN_DECODE_DCO_P		881  /**/
#define ERR_ACN_DECODE_DCO_P_A_2		861  /**/
#define ERR_ACN_DECODE_DCO_P_B		866  /**/
#define ERR_ACN_DECODE_DCO_P_C_2		876  /**/
#define ERR_ACN_DECODE_DCO_T		913  /**/
flag DCo_ACN_Decode(DCo* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[25];
} OB;


flag OB_Equal(const OB* pVal1, const OB* pVal2);

#define ERR_OB		921  /*(SIZE(0..25))*/
flag OB_IsConstraintValid(const OB* pVal, int* pErrCode);

void OB_Initialize(OB* pVal);

#define OB_REQUIRED_BYTES_FOR_ACN_ENCODING       25
#define OB_REQUIRED_BITS_FOR_ACN_ENCODING        200
/*-- DW16L --------------------------------------------*/
typedef asn1SccUint DW16L_t;

typedef struct {
    DHdr h;
    flag m;
    OB b;
    DW16L_t t;

} DW16L;

flag DW16L_t_Equal(const DW16L_t* pVal1, const DW16L_t* pVal2);

flag DW16L_Equal(const DW16L* pVal1, const DW16L* pVal2);

#define ERR_DW16L_T		959  /*(0..31)*/
flag DW16L_t_IsConstraintValid(const DW16L_t* pVal, int* pErrCode);

#define ERR_DW16L		964  /**/
#define ERR_DW16L_H_2		943  /**/
#define ERR_DW16L_M		946  /**/
#define ERR_DW16L_B_2		956  /**/
flag DW16L_IsConstraintValid(const DW16L* pVal, int* pErrCode);

void DW16L_t_Initialize(DW16L_t* pVal);
void DW16L_Initialize(DW16L* pVal);

#define DW16L_REQUIRED_BYTES_FOR_ACN_ENCODING       29
#define DW16L_REQUIRED_BITS_FOR_ACN_ENCODING        227

#define ERR_ACN_ENCODE_DW16L		967  /**/
#define ERR_ACN_ENCODE_DW16L_H		941  /**/
#define ERR_ACN_ENCODE_DW16L_H_V		929  /**/
#define ERR_ACN_ENCODE_DW16L_H_N_UNINITIALIZED		968  /**/
#define ERR_ACN_ENCODE_DW16L_H_N		931  /**/
#define ERR_ACN_ENCODE_DW16L_H_E		936  /**/
#define ERR_ACN_ENCODE_DW16L_M		949  /**/
#define ERR_ACN_ENCODE_DW16L_B		954  /**/
#define ERR_ACN_ENCODE_DW16L_T		962  /**/

flag DW16L_ACN_Encode(const DW16L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW16L		969  /**/
#define ERR_ACN_DECODE_DW16L_H		942  /**/
#define ERR_ACN_DECODE_DW16L_H_V		930  /**/
#define ERR_ACN_DECODE_DW16L_H_N		932  /**/
#define ERR_ACN_DECODE_DW16L_H_E		937  /**/
#define ERR_ACN_DECODE_DW16L_M		950  /**/
#define ERR_ACN_DECODE_DW16L_B		955  /**/
#define ERR_ACN_DECODE_DW16L_T		963  /**/
flag DW16L_ACN_Decode(DW16L* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DW64L --------------------------------------------*/
typedef asn1SccUint DW64L_t;

typedef struct {
    DHdr h;
    flag m;
    OB b;
    DW64L_t t;

} DW64L;

flag DW64L_t_Equal(const DW64L_t* pVal1, const DW64L_t* pVal2);

flag DW64L_Equal(const DW64L* pVal1, const DW64L* pVal2);

#define ERR_DW64L_T		1003  /*(0..31)*/
flag DW64L_t_IsConstraintValid(const DW64L_t* pVal, int* pErrCode);

#define ERR_DW64L		1008  /**/
#define ERR_DW64L_H_2		987  /**/
#define ERR_DW64L_M		990  /**/
#define ERR_DW64L_B_2		1000  /**/
flag DW64L_IsConstraintValid(const DW64L* pVal, int* pErrCode);

void DW64L_t_Initialize(DW64L_t* pVal);
void DW64L_Initialize(DW64L* pVal);

#define DW64L_REQUIRED_BYTES_FOR_ACN_ENCODING       35
#define DW64L_REQUIRED_BITS_FOR_ACN_ENCODING        275

#define ERR_ACN_ENCODE_DW64L		1011  /**/
#define ERR_ACN_ENCODE_DW64L_H		985  /**/
#define ERR_ACN_ENCODE_DW64L_H_V		973  /**/
#define ERR_ACN_ENCODE_DW64L_H_N_UNINITIALIZED		1012  /**/
#define ERR_ACN_ENCODE_DW64L_H_N		975  /**/
#define ERR_ACN_ENCODE_DW64L_H_E		980  /**/
#define ERR_ACN_ENCODE_DW64L_M		993  /**/
#define ERR_ACN_ENCODE_DW64L_B		998  /**/
#define ERR_ACN_ENCODE_DW64L_T		1006  /**/

flag DW64L_ACN_Encode(const DW64L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW64L		1013  /**/
#define ERR_ACN_DECODE_DW64L_H		986  /**/
#define ERR_ACN_DECODE_DW64L_H_V		974  /**/
#define ERR_ACN_DECODE_DW64L_H_N		976  /**/
#define ERR_ACN_DECODE_DW64L_H_E		981  /**/
#define ERR_ACN_DECODE_DW64L_M		994  /**/
#define ERR_ACN_DECODE_DW64L_B		999  /**/
#define ERR_ACN_DECODE_DW64L_T		1007  /**/
flag DW64L_ACN_Decode(DW64L* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DI32 --------------------------------------------*/
typedef asn1SccUint DI32_t;

typedef struct {
    DHdr h;
    flag m;
    OB b;
    DI32_t t;

} DI32;

flag DI32_t_Equal(const DI32_t* pVal1, const DI32_t* pVal2);

flag DI32_Equal(const DI32* pVal1, const DI32* pVal2);

#define ERR_DI32_T		1047  /*(0..31)*/
flag DI32_t_IsConstraintValid(const DI32_t* pVal, int* pErrCode);

#define ERR_DI32		1052  /**/
#define ERR_DI32_H_2		1031  /**/
#define ERR_DI32_M		1034  /**/
#define ERR_DI32_B_2		1044  /**/
flag DI32_IsConstraintValid(const DI32* pVal, int* pErrCode);

void DI32_t_Initialize(DI32_t* pVal);
void DI32_Initialize(DI32* pVal);

#define DI32_REQUIRED_BYTES_FOR_ACN_ENCODING       31
#define DI32_REQUIRED_BITS_FOR_ACN_ENCODING        243

#define ERR_ACN_ENCODE_DI32		1055  /**/
#define ERR_ACN_ENCODE_DI32_H		1029  /**/
#define ERR_ACN_ENCODE_DI32_H_V		1017  /**/
#define ERR_ACN_ENCODE_DI32_H_N_UNINITIALIZED		1056  /**/
#define ERR_ACN_ENCODE_DI32_H_N		1019  /**/
#define ERR_ACN_ENCODE_DI32_H_E		1024  /**/
#define ERR_ACN_ENCODE_DI32_M		1037  /**/
#define ERR_ACN_ENCODE_DI32_B		1042  /**/
#define ERR_ACN_ENCODE_DI32_T		1050  /**/

flag DI32_ACN_Encode(const DI32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DI32		1057  /**/
#define ERR_ACN_DECODE_DI32_H		1030  /**/
#define ERR_ACN_DECODE_DI32_H_V		1018  /**/
#define ERR_ACN_DECODE_DI32_H_N		1020  /**/
#define ERR_ACN_DECODE_DI32_H_E		1025  /**/
#define ERR_ACN_DECODE_DI32_M		1038  /**/
#define ERR_ACN_DECODE_DI32_B		1043  /**/
#define ERR_ACN_DECODE_DI32_T		1051  /**/
flag DI32_ACN_Decode(DI32* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Lv3 --------------------------------------------*/
typedef asn1SccUint Lv3_z;

typedef struct {
    Lv3_z z;
    OB o;

} Lv3;

flag Lv3_z_Equal(const Lv3_z* pVal1, const Lv3_z* pVal2);

flag Lv3_Equal(const Lv3* pVal1, const Lv3* pVal2);

#define ERR_LV3_Z		1058  /*(0..3)*/
flag Lv3_z_IsConstraintValid(const Lv3_z* pVal, int* pErrCode);

#define ERR_LV3		1071  /**/
#define ERR_LV3_O_2		1068  /**/
flag Lv3_IsConstraintValid(const Lv3* pVal, int* pErrCode);

void Lv3_z_Initialize(Lv3_z* pVal);
void Lv3_Initialize(Lv3* pVal);

#define Lv3_REQUIRED_BYTES_FOR_ACN_ENCODING       26
#define Lv3_REQUIRED_BITS_FOR_ACN_ENCODING        202
/*-- Lv2 --------------------------------------------*/
typedef struct {
    Lv3 l3;
    PB p;

} Lv2;

flag Lv2_Equal(const Lv2* pVal1, const Lv2* pVal2);

#define ERR_LV2		1123  /**/
#define ERR_LV2_L3_2		1094  /**/
#define ERR_LV2_P_2		1120  /**/
flag Lv2_IsConstraintValid(const Lv2* pVal, int* pErrCode);

void Lv2_Initialize(Lv2* pVal);

#define Lv2_REQUIRED_BYTES_FOR_ACN_ENCODING       27
#define Lv2_REQUIRED_BITS_FOR_ACN_ENCODING        214
/*-- Lv1 --------------------------------------------*/
typedef asn1SccUint Lv1_y;

typedef struct {
    flag x;
    Lv2 l2;
    Lv1_y y;

} Lv1;

flag Lv1_y_Equal(const Lv1_y* pVal1, const Lv1_y* pVal2);

flag Lv1_Equal(const Lv1* pVal1, const Lv1* pVal2);

#define ERR_LV1_Y		1188  /*(0..7)*/
flag Lv1_y_IsConstraintValid(const Lv1_y* pVal, int* pErrCode);

#define ERR_LV1		1193  /**/
#define ERR_LV1_X		1128  /**/
#define ERR_LV1_L2_2		1185  /**/
flag Lv1_IsConstraintValid(const Lv1* pVal, int* pErrCode);

void Lv1_y_Initialize(Lv1_y* pVal);
void Lv1_Initialize(Lv1* pVal);

#define Lv1_REQUIRED_BYTES_FOR_ACN_ENCODING       28
#define Lv1_REQUIRED_BITS_FOR_ACN_ENCODING        218
/*-- DFwd --------------------------------------------*/
typedef asn1SccUint DFwd_m;

typedef struct {
    DHdr h;
    DFwd_m m;
    Lv1 l;
    P8 t;

} DFwd;

flag DFwd_m_Equal(const DFwd_m* pVal1, const DFwd_m* pVal2);

flag DFwd_Equal(const DFwd* pVal1, const DFwd* pVal2);

#define ERR_DFWD_M		1220  /*(0..7)*/
flag DFwd_m_IsConstraintValid(const DFwd_m* pVal, int* pErrCode);

#define ERR_DFWD		1308  /**/
#define ERR_DFWD_H_2		1217  /**/
#define ERR_DFWD_L_2		1295  /**/
#define ERR_DFWD_T_2		1303  /**/
flag DFwd_IsConstraintValid(const DFwd* pVal, int* pErrCode);

void DFwd_m_Initialize(DFwd_m* pVal);
void DFwd_Initialize(DFwd* pVal);

#define DFwd_REQUIRED_BYTES_FOR_ACN_ENCODING       31
#define DFwd_REQUIRED_BITS_FOR_ACN_ENCODING        242

#define ERR_ACN_ENCODE_DFWD		1311  /**/
#define ERR_ACN_ENCODE_DFWD_H		1215  /**/
#define ERR_ACN_ENCODE_DFWD_H_V		1201  /**/
#define ERR_ACN_ENCODE_DFWD_H_N_UNINITIALIZED		1312  /**/
#define ERR_ACN_ENCODE_DFWD_H_N		1203  /**/
#define ERR_ACN_ENCODE_DFWD_H_F_UNINITIALIZED		1313  /**/
#define ERR_ACN_ENCODE_DFWD_H_F		1205  /**/
#define ERR_ACN_ENCODE_DFWD_H_E		1210  /**/
#define ERR_ACN_ENCODE_DFWD_M		1223  /**/
#define ERR_ACN_ENCODE_DFWD_L		1293  /**/
#define ERR_ACN_ENCODE_DFWD_L_X		1228  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2		1280  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3		1246  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3_Z		1233  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3_O		1238  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P		1272  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P_X		1254  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P_O		1259  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P_Z		1267  /**/
#define ERR_ACN_ENCODE_DFWD_L_Y		1288  /**/
#define ERR_ACN_ENCODE_DFWD_T_2		1306  /**/

flag DFwd_ACN_Encode(const DFwd* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DFWD		1314  /**/
#define ERR_ACN_DECODE_DFWD_H		1216  /**/
#define ERR_ACN_DECODE_DFWD_H_V		1202  /**/
#define ERR_ACN_DECODE_DFWD_H_N		1204  /**/
#define ERR_ACN_DECODE_DFWD_H_F		1206  /**/
#define ERR_ACN_DECODE_DFWD_H_E		1211  /**/
#define ERR_ACN_DECODE_DFWD_M		1224  /**/
#define ERR_ACN_DECODE_DFWD_L		1294  /**/
#define ERR_ACN_DECODE_DFWD_L_X		1229  /**/
#define ERR_ACN_DECODE_DFWD_L_L2		1281  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3		1247  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3_Z		1234  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3_O		1239  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P		1273  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P_X		1255  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P_O		1260  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P_Z		1268  /**/
#define ERR_ACN_DECODE_DFWD_L_Y		1289  /**/
#define ERR_ACN_DECODE_DFWD_T_2		1307  /**/
flag DFwd_ACN_Decode(DFwd* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- SB --------------------------------------------*/
typedef char SB_s[13];
typedef asn1SccUint SB_y;

typedef struct {
    flag x;
    SB_s s;
    SB_y y;

} SB;

flag SB_s_Equal(const SB_s pVal1, const SB_s pVal2);

flag SB_y_Equal(const SB_y* pVal1, const SB_y* pVal2);

flag SB_Equal(const SB* pVal1, const SB* pVal2);

#define ERR_SB_S		1320  /*(SIZE(0..12))*/
flag SB_s_IsConstraintValid(const SB_s pVal, int* pErrCode);

#define ERR_SB_Y		1325  /*(0..3)*/
flag SB_y_IsConstraintValid(const SB_y* pVal, int* pErrCode);

#define ERR_SB		1330  /**/
#define ERR_SB_X		1315  /**/
flag SB_IsConstraintValid(const SB* pVal, int* pErrCode);

void SB_s_Initialize(SB_s pVal);
void SB_y_Initialize(SB_y* pVal);
void SB_Initialize(SB* pVal);

#define SB_REQUIRED_BYTES_FOR_ACN_ENCODING       11
#define SB_REQUIRED_BITS_FOR_ACN_ENCODING        87
/*-- DW8 --------------------------------------------*/
typedef asn1SccUint DW8_t;

typedef struct {
    DHdr h;
    flag m;
    SB b;
    DW8_t t;

} DW8;

flag DW8_t_Equal(const DW8_t* pVal1, const DW8_t* pVal2);

flag DW8_Equal(const DW8* pVal1, const DW8* pVal2);

#define ERR_DW8_T		1383  /*(0..31)*/
flag DW8_t_IsConstraintValid(const DW8_t* pVal, int* pErrCode);

#define ERR_DW8		1388  /**/
#define ERR_DW8_H_2		1352  /**/
#define ERR_DW8_M		1355  /**/
#define ERR_DW8_B_2		1380  /**/
flag DW8_IsConstraintValid(const DW8* pVal, int* pErrCode);

void DW8_t_Initialize(DW8_t* pVal);
void DW8_Initialize(DW8* pVal);

#define DW8_REQUIRED_BYTES_FOR_ACN_ENCODING       14
#define DW8_REQUIRED_BITS_FOR_ACN_ENCODING        106

#define ERR_ACN_ENCODE_DW8		1391  /**/
#define ERR_ACN_ENCODE_DW8_H		1350  /**/
#define ERR_ACN_ENCODE_DW8_H_V		1338  /**/
#define ERR_ACN_ENCODE_DW8_H_N_UNINITIALIZED		1392  /**/
#define ERR_ACN_ENCODE_DW8_H_N		1340  /**/
#define ERR_ACN_ENCODE_DW8_H_E		1345  /**/
#define ERR_ACN_ENCODE_DW8_M		1358  /**/
#define ERR_ACN_ENCODE_DW8_B		1378  /**/
#define ERR_ACN_ENCODE_DW8_B_X		1363  /**/
#define ERR_ACN_ENCODE_DW8_B_S		1368  /**/
#define ERR_ACN_ENCODE_DW8_B_Y		1373  /**/
#define ERR_ACN_ENCODE_DW8_T		1386  /**/

flag DW8_ACN_Encode(const DW8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW8		1393  /**/
#define ERR_ACN_DECODE_DW8_H		1351  /**/
#define ERR_ACN_DECODE_DW8_H_V		1339  /**/
#define ERR_ACN_DECODE_DW8_H_N		1341  /**/
#define ERR_ACN_DECODE_DW8_H_E		1346  /**/
#define ERR_ACN_DECODE_DW8_M		1359  /**/
#define ERR_ACN_DECODE_DW8_B		1379  /**/
#define ERR_ACN_DECODE_DW8_B_X		1364  /**/
#define ERR_ACN_DECODE_DW8_B_S		1369  /**/
#define ERR_ACN_DECODE_DW8_B_Y		1374  /**/
#define ERR_ACN_DECODE_DW8_T		1387  /**/
flag DW8_ACN_Decode(DW8* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DW32 --------------------------------------------*/
typedef asn1SccUint DW32_t;

typedef struct {
    DHdr h;
    flag m;
    SB b;
    DW32_t t;

} DW32;

flag DW32_t_Equal(const DW32_t* pVal1, const DW32_t* pVal2);

flag DW32_Equal(const DW32* pVal1, const DW32* pVal2);

#define ERR_DW32_T		1442  /*(0..31)*/
flag DW32_t_IsConstraintValid(const DW32_t* pVal, int* pErrCode);

#define ERR_DW32		1447  /**/
#define ERR_DW32_H_2		1411  /**/
#define ERR_DW32_M		1414  /**/
#define ERR_DW32_B_2		1439  /**/
flag DW32_IsConstraintValid(const DW32* pVal, int* pErrCode);

void DW32_t_Initialize(DW32_t* pVal);
void DW32_Initialize(DW32* pVal);

#define DW32_REQUIRED_BYTES_FOR_ACN_ENCODING       17
#define DW32_REQUIRED_BITS_FOR_ACN_ENCODING        130

#define ERR_ACN_ENCODE_DW32		1450  /**/
#define ERR_ACN_ENCODE_DW32_H		1409  /**/
#define ERR_ACN_ENCODE_DW32_H_V		1397  /**/
#define ERR_ACN_ENCODE_DW32_H_N_UNINITIALIZED		1451  /**/
#define ERR_ACN_ENCODE_DW32_H_N		1399  /**/
#define ERR_ACN_ENCODE_DW32_H_E		1404  /**/
#define ERR_ACN_ENCODE_DW32_M		1417  /**/
#define ERR_ACN_ENCODE_DW32_B		1437  /**/
#define ERR_ACN_ENCODE_DW32_B_X		1422  /**/
#define ERR_ACN_ENCODE_DW32_B_S		1427  /**/
#define ERR_ACN_ENCODE_DW32_B_Y		1432  /**/
#define ERR_ACN_ENCODE_DW32_T		1445  /**/

flag DW32_ACN_Encode(const DW32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW32		1452  /**/
#define ERR_ACN_DECODE_DW32_H		1410  /**/
#define ERR_ACN_DECODE_DW32_H_V		1398  /**/
#define ERR_ACN_DECODE_DW32_H_N		1400  /**/
#define ERR_ACN_DECODE_DW32_H_E		1405  /**/
#define ERR_ACN_DECODE_DW32_M		1418  /**/
#define ERR_ACN_DECODE_DW32_B		1438  /**/
#define ERR_ACN_DECODE_DW32_B_X		1423  /**/
#define ERR_ACN_DECODE_DW32_B_S		1428  /**/
#define ERR_ACN_DECODE_DW32_B_Y		1433  /**/
#define ERR_ACN_DECODE_DW32_T		1446  /**/
flag DW32_ACN_Decode(DW32* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DI8 --------------------------------------------*/
typedef asn1SccUint DI8_t;

typedef struct {
    DHdr h;
    flag m;
    SB b;
    DI8_t t;

} DI8;

flag DI8_t_Equal(const DI8_t* pVal1, const DI8_t* pVal2);

flag DI8_Equal(const DI8* pVal1, const DI8* pVal2);

#define ERR_DI8_T		1501  /*(0..31)*/
flag DI8_t_IsConstraintValid(const DI8_t* pVal, int* pErrCode);

#define ERR_DI8		1506  /**/
#define ERR_DI8_H_2		1470  /**/
#define ERR_DI8_M		1473  /**/
#define ERR_DI8_B_2		1498  /**/
flag DI8_IsConstraintValid(const DI8* pVal, int* pErrCode);

void DI8_t_Initialize(DI8_t* pVal);
void DI8_Initialize(DI8* pVal);

#define DI8_REQUIRED_BYTES_FOR_ACN_ENCODING       14
#define DI8_REQUIRED_BITS_FOR_ACN_ENCODING        106

#define ERR_ACN_ENCODE_DI8		1509  /**/
#define ERR_ACN_ENCODE_DI8_H		1468  /**/
#define ERR_ACN_ENCODE_DI8_H_V		1456  /**/
#define ERR_ACN_ENCODE_DI8_H_N_UNINITIALIZED		1510  /**/
#define ERR_ACN_ENCODE_DI8_H_N		1458  /**/
#define ERR_ACN_ENCODE_DI8_H_E		1463  /**/
#define ERR_ACN_ENCODE_DI8_M		1476  /**/
#define ERR_ACN_ENCODE_DI8_B		1496  /**/
#define ERR_ACN_ENCODE_DI8_B_X		1481  /**/
#define ERR_ACN_ENCODE_DI8_B_S		1486  /**/
#define ERR_ACN_ENCODE_DI8_B_Y		1491  /**/
#define ERR_ACN_ENCODE_DI8_T		1504  /**/

flag DI8_ACN_Encode(const DI8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DI8		1511  /**/
#define ERR_ACN_DECODE_DI8_H		1469  /**/
#define ERR_ACN_DECODE_DI8_H_V		1457  /**/
#define ERR_ACN_DECODE_DI8_H_N		1459  /**/
#define ERR_ACN_DECODE_DI8_H_E		1464  /**/
#define ERR_ACN_DECODE_DI8_M		1477  /**/
#define ERR_ACN_DECODE_DI8_B		1497  /**/
#define ERR_ACN_DECODE_DI8_B_X		1482  /**/
#define ERR_ACN_DECODE_DI8_B_S		1487  /**/
#define ERR_ACN_DECODE_DI8_B_Y		1492  /**/
#define ERR_ACN_DECODE_DI8_T		1505  /**/
flag DI8_ACN_Decode(DI8* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DI64 --------------------------------------------*/
typedef asn1SccUint DI64_t;

typedef struct {
    DHdr h;
    flag m;
    SB b;
    DI64_t t;

} DI64;

flag DI64_t_Equal(const DI64_t* pVal1, const DI64_t* pVal2);

flag DI64_Equal(const DI64* pVal1, const DI64* pVal2);

#define ERR_DI64_T		1560  /*(0..31)*/
flag DI64_t_IsConstraintValid(const DI64_t* pVal, int* pErrCode);

#define ERR_DI64		1565  /**/
#define ERR_DI64_H_2		1529  /**/
#define ERR_DI64_M		1532  /**/
#define ERR_DI64_B_2		1557  /**/
flag DI64_IsConstraintValid(const DI64* pVal, int* pErrCode);

void DI64_t_Initialize(DI64_t* pVal);
void DI64_Initialize(DI64* pVal);

#define DI64_REQUIRED_BYTES_FOR_ACN_ENCODING       21
#define DI64_REQUIRED_BITS_FOR_ACN_ENCODING        162

#define ERR_ACN_ENCODE_DI64		1568  /**/
#define ERR_ACN_ENCODE_DI64_H		1527  /**/
#define ERR_ACN_ENCODE_DI64_H_V		1515  /**/
#define ERR_ACN_ENCODE_DI64_H_N_UNINITIALIZED		1569  /**/
#define ERR_ACN_ENCODE_DI64_H_N		1517  /**/
#define ERR_ACN_ENCODE_DI64_H_E		1522  /**/
#define ERR_ACN_ENCODE_DI64_M		1535  /**/
#define ERR_ACN_ENCODE_DI64_B		1555  /**/
#define ERR_ACN_ENCODE_DI64_B_X		1540  /**/
#define ERR_ACN_ENCODE_DI64_B_S		1545  /**/
#define ERR_ACN_ENCODE_DI64_B_Y		1550  /**/
#define ERR_ACN_ENCODE_DI64_T		1563  /**/

flag DI64_ACN_Encode(const DI64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DI64		1570  /**/
#define ERR_ACN_DECODE_DI64_H		1528  /**/
#define ERR_ACN_DECODE_DI64_H_V		1516  /**/
#define ERR_ACN_DECODE_DI64_H_N		1518  /**/
#define ERR_ACN_DECODE_DI64_H_E		1523  /**/
#define ERR_ACN_DECODE_DI64_M		1536  /**/
#define ERR_ACN_DECODE_DI64_B		1556  /**/
#define ERR_ACN_DECODE_DI64_B_X		1541  /**/
#define ERR_ACN_DECODE_DI64_B_S		1546  /**/
#define ERR_ACN_DECODE_DI64_B_Y		1551  /**/
#define ERR_ACN_DECODE_DI64_T		1564  /**/
flag DI64_ACN_Decode(DI64* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DSh --------------------------------------------*/
typedef asn1SccUint DSh_t;

typedef struct {
    DHdr h;
    OB b;
    flag m;
    SB c;
    DSh_t t;

} DSh;

flag DSh_t_Equal(const DSh_t* pVal1, const DSh_t* pVal2);

flag DSh_Equal(const DSh* pVal1, const DSh* pVal2);

#define ERR_DSH_T		1628  /*(0..31)*/
flag DSh_t_IsConstraintValid(const DSh_t* pVal, int* pErrCode);

#define ERR_DSH		1633  /**/
#define ERR_DSH_H_2		1589  /**/
#define ERR_DSH_B_2		1597  /**/
#define ERR_DSH_M		1600  /**/
#define ERR_DSH_C_2		1625  /**/
flag DSh_IsConstraintValid(const DSh* pVal, int* pErrCode);

void DSh_t_Initialize(DSh_t* pVal);
void DSh_Initialize(DSh* pVal);

#define DSh_REQUIRED_BYTES_FOR_ACN_ENCODING       38
#define DSh_REQUIRED_BITS_FOR_ACN_ENCODING        303

#define ERR_ACN_ENCODE_DSH		1636  /**/
#define ERR_ACN_ENCODE_DSH_H		1587  /**/
#define ERR_ACN_ENCODE_DSH_H_V		1574  /**/
#define ERR_ACN_ENCODE_UPDATE_DSH_H_N		1578  /**/
#define ERR_ACN_ENCODE_DSH_H_N_UNINITIALIZED		1637  /**/
#define ERR_ACN_ENCODE_DSH_H_N		1576  /**/
#define ERR_ACN_ENCODE_DSH_H_E		1582  /**/
#define ERR_ACN_ENCODE_DSH_B		1595  /**/
#define ERR_ACN_ENCODE_DSH_M		1603  /**/
#define ERR_ACN_ENCODE_DSH_C		1623  /**/
#define ERR_ACN_ENCODE_DSH_C_X		1608  /**/
#define ERR_ACN_ENCODE_DSH_C_S		1613  /**/
#define ERR_ACN_ENCODE_DSH_C_Y		1618  /**/
#define ERR_ACN_ENCODE_DSH_T		1631  /**/

flag DSh_ACN_Encode(const DSh* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DSH		1638  /**/
#define ERR_ACN_DECODE_DSH_H		1588  /**/
#define ERR_ACN_DECODE_DSH_H_V		1575  /**/
#define ERR_ACN_DECODE_DSH_H_N		1577  /**/
#define ERR_ACN_DECODE_DSH_H_E		1583  /**/
#define ERR_ACN_DECODE_DSH_B		1596  /**/
#define ERR_ACN_DECODE_DSH_M		1604  /**/
#define ERR_ACN_DECODE_DSH_C		1624  /**/
#define ERR_ACN_DECODE_DSH_C_X		1609  /**/
#define ERR_ACN_DECODE_DSH_C_S		1614  /**/
#define ERR_ACN_DECODE_DSH_C_Y		1619  /**/
#define ERR_ACN_DECODE_DSH_T		1632  /**/
flag DSh_ACN_Decode(DSh* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- BB --------------------------------------------*/

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 61 */
    byte arr[8];
} BB_s;
typedef asn1SccUint BB_y;

typedef struct {
    flag x;
    BB_s s;
    BB_y y;

} BB;

flag BB_s_Equal(const BB_s* pVal1, const BB_s* pVal2);

flag BB_y_Equal(const BB_y* pVal1, const BB_y* pVal2);

flag BB_Equal(const BB* pVal1, const BB* pVal2);

#define ERR_BB_S		1644  /*(SIZE(0..61))*/
flag BB_s_IsConstraintValid(const BB_s* pVal, int* pErrCode);

#define ERR_BB_Y		1649  /*(0..3)*/
flag BB_y_IsConstraintValid(const BB_y* pVal, int* pErrCode);

#define ERR_BB		1654  /**/
#define ERR_BB_X		1639  /**/
flag BB_IsConstraintValid(const BB* pVal, int* pErrCode);

void BB_s_Initialize(BB_s* pVal);
void BB_y_Initialize(BB_y* pVal);
void BB_Initialize(BB* pVal);

#define BB_REQUIRED_BYTES_FOR_ACN_ENCODING       8
#define BB_REQUIRED_BITS_FOR_ACN_ENCODING        64
/*-- DW12 --------------------------------------------*/
typedef asn1SccUint DW12_t;

typedef struct {
    DHdr h;
    flag m;
    BB b;
    DW12_t t;

} DW12;

flag DW12_t_Equal(const DW12_t* pVal1, const DW12_t* pVal2);

flag DW12_Equal(const DW12* pVal1, const DW12* pVal2);

#define ERR_DW12_T		1707  /*(0..31)*/
flag DW12_t_IsConstraintValid(const DW12_t* pVal, int* pErrCode);

#define ERR_DW12		1712  /**/
#define ERR_DW12_H_2		1676  /**/
#define ERR_DW12_M		1679  /**/
#define ERR_DW12_B_2		1704  /**/
flag DW12_IsConstraintValid(const DW12* pVal, int* pErrCode);

void DW12_t_Initialize(DW12_t* pVal);
void DW12_Initialize(DW12* pVal);

#define DW12_REQUIRED_BYTES_FOR_ACN_ENCODING       11
#define DW12_REQUIRED_BITS_FOR_ACN_ENCODING        87

#define ERR_ACN_ENCODE_DW12		1715  /**/
#define ERR_ACN_ENCODE_DW12_H		1674  /**/
#define ERR_ACN_ENCODE_DW12_H_V		1662  /**/
#define ERR_ACN_ENCODE_DW12_H_N_UNINITIALIZED		1716  /**/
#define ERR_ACN_ENCODE_DW12_H_N		1664  /**/
#define ERR_ACN_ENCODE_DW12_H_E		1669  /**/
#define ERR_ACN_ENCODE_DW12_M		1682  /**/
#define ERR_ACN_ENCODE_DW12_B		1702  /**/
#define ERR_ACN_ENCODE_DW12_B_X		1687  /**/
#define ERR_ACN_ENCODE_DW12_B_S		1692  /**/
#define ERR_ACN_ENCODE_DW12_B_Y		1697  /**/
#define ERR_ACN_ENCODE_DW12_T		1710  /**/

flag DW12_ACN_Encode(const DW12* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW12		1717  /**/
#define ERR_ACN_DECODE_DW12_H		1675  /**/
#define ERR_ACN_DECODE_DW12_H_V		1663  /**/
#define ERR_ACN_DECODE_DW12_H_N		1665  /**/
#define ERR_ACN_DECODE_DW12_H_E		1670  /**/
#define ERR_ACN_DECODE_DW12_M		1683  /**/
#define ERR_ACN_DECODE_DW12_B		1703  /**/
#define ERR_ACN_DECODE_DW12_B_X		1688  /**/
#define ERR_ACN_DECODE_DW12_B_S		1693  /**/
#define ERR_ACN_DECODE_DW12_B_Y		1698  /**/
#define ERR_ACN_DECODE_DW12_T		1711  /**/
flag DW12_ACN_Decode(DW12* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DW32L --------------------------------------------*/
typedef asn1SccUint DW32L_t;

typedef struct {
    DHdr h;
    flag m;
    BB b;
    DW32L_t t;

} DW32L;

flag DW32L_t_Equal(const DW32L_t* pVal1, const DW32L_t* pVal2);

flag DW32L_Equal(const DW32L* pVal1, const DW32L* pVal2);

#define ERR_DW32L_T		1766  /*(0..31)*/
flag DW32L_t_IsConstraintValid(const DW32L_t* pVal, int* pErrCode);

#define ERR_DW32L		1771  /**/
#define ERR_DW32L_H_2		1735  /**/
#define ERR_DW32L_M		1738  /**/
#define ERR_DW32L_B_2		1763  /**/
flag DW32L_IsConstraintValid(const DW32L* pVal, int* pErrCode);

void DW32L_t_Initialize(DW32L_t* pVal);
void DW32L_Initialize(DW32L* pVal);

#define DW32L_REQUIRED_BYTES_FOR_ACN_ENCODING       14
#define DW32L_REQUIRED_BITS_FOR_ACN_ENCODING        107

#define ERR_ACN_ENCODE_DW32L		1774  /**/
#define ERR_ACN_ENCODE_DW32L_H		1733  /**/
#define ERR_ACN_ENCODE_DW32L_H_V		1721  /**/
#define ERR_ACN_ENCODE_DW32L_H_N_UNINITIALIZED		1775  /**/
#define ERR_ACN_ENCODE_DW32L_H_N		1723  /**/
#define ERR_ACN_ENCODE_DW32L_H_E		1728  /**/
#define ERR_ACN_ENCODE_DW32L_M		1741  /**/
#define ERR_ACN_ENCODE_DW32L_B		1761  /**/
#define ERR_ACN_ENCODE_DW32L_B_X		1746  /**/
#define ERR_ACN_ENCODE_DW32L_B_S		1751  /**/
#define ERR_ACN_ENCODE_DW32L_B_Y		1756  /**/
#define ERR_ACN_ENCODE_DW32L_T		1769  /**/

flag DW32L_ACN_Encode(const DW32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DW32L		1776  /**/
#define ERR_ACN_DECODE_DW32L_H		1734  /**/
#define ERR_ACN_DECODE_DW32L_H_V		1722  /**/
#define ERR_ACN_DECODE_DW32L_H_N		1724  /**/
#define ERR_ACN_DECODE_DW32L_H_E		1729  /**/
#define ERR_ACN_DECODE_DW32L_M		1742  /**/
#define ERR_ACN_DECODE_DW32L_B		1762  /**/
#define ERR_ACN_DECODE_DW32L_B_X		1747  /**/
#define ERR_ACN_DECODE_DW32L_B_S		1752  /**/
#define ERR_ACN_DECODE_DW32L_B_Y		1757  /**/
#define ERR_ACN_DECODE_DW32L_T		1770  /**/
flag DW32L_ACN_Decode(DW32L* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DI16 --------------------------------------------*/
typedef asn1SccUint DI16_t;

typedef struct {
    DHdr h;
    flag m;
    BB b;
    DI16_t t;

} DI16;

flag DI16_t_Equal(const DI16_t* pVal1, const DI16_t* pVal2);

flag DI16_Equal(const DI16* pVal1, const DI16* pVal2);

#define ERR_DI16_T		1825  /*(0..31)*/
flag DI16_t_IsConstraintValid(const DI16_t* pVal, int* pErrCode);

#define ERR_DI16		1830  /**/
#define ERR_DI16_H_2		1794  /**/
#define ERR_DI16_M		1797  /**/
#define ERR_DI16_B_2		1822  /**/
flag DI16_IsConstraintValid(const DI16* pVal, int* pErrCode);

void DI16_t_Initialize(DI16_t* pVal);
void DI16_Initialize(DI16* pVal);

#define DI16_REQUIRED_BYTES_FOR_ACN_ENCODING       12
#define DI16_REQUIRED_BITS_FOR_ACN_ENCODING        91

#define ERR_ACN_ENCODE_DI16		1833  /**/
#define ERR_ACN_ENCODE_DI16_H		1792  /**/
#define ERR_ACN_ENCODE_DI16_H_V		1780  /**/
#define ERR_ACN_ENCODE_DI16_H_N_UNINITIALIZED		1834  /**/
#define ERR_ACN_ENCODE_DI16_H_N		1782  /**/
#define ERR_ACN_ENCODE_DI16_H_E		1787  /**/
#define ERR_ACN_ENCODE_DI16_M		1800  /**/
#define ERR_ACN_ENCODE_DI16_B		1820  /**/
#define ERR_ACN_ENCODE_DI16_B_X		1805  /**/
#define ERR_ACN_ENCODE_DI16_B_S		1810  /**/
#define ERR_ACN_ENCODE_DI16_B_Y		1815  /**/
#define ERR_ACN_ENCODE_DI16_T		1828  /**/

flag DI16_ACN_Encode(const DI16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DI16		1835  /**/
#define ERR_ACN_DECODE_DI16_H		1793  /**/
#define ERR_ACN_DECODE_DI16_H_V		1781  /**/
#define ERR_ACN_DECODE_DI16_H_N		1783  /**/
#define ERR_ACN_DECODE_DI16_H_E		1788  /**/
#define ERR_ACN_DECODE_DI16_M		1801  /**/
#define ERR_ACN_DECODE_DI16_B		1821  /**/
#define ERR_ACN_DECODE_DI16_B_X		1806  /**/
#define ERR_ACN_DECODE_DI16_B_S		1811  /**/
#define ERR_ACN_DECODE_DI16_B_Y		1816  /**/
#define ERR_ACN_DECODE_DI16_T		1829  /**/
flag DI16_ACN_Decode(DI16* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DShQ --------------------------------------------*/
typedef asn1SccUint DShQ_t;

typedef struct {
    DHdr h;
    QB b;
    flag m;
    BB c;
    OB d;
    DShQ_t t;

} DShQ;

flag DShQ_t_Equal(const DShQ_t* pVal1, const DShQ_t* pVal2);

flag DShQ_Equal(const DShQ* pVal1, const DShQ* pVal2);

#define ERR_DSHQ_T		1926  /*(0..31)*/
flag DShQ_t_IsConstraintValid(const DShQ_t* pVal, int* pErrCode);

#define ERR_DSHQ		1931  /**/
#define ERR_DSHQ_H_2		1854  /**/
#define ERR_DSHQ_B_2		1887  /**/
#define ERR_DSHQ_M		1890  /**/
#define ERR_DSHQ_C_2		1915  /**/
#define ERR_DSHQ_D_2		1923  /**/
flag DShQ_IsConstraintValid(const DShQ* pVal, int* pErrCode);

void DShQ_t_Initialize(DShQ_t* pVal);
void DShQ_Initialize(DShQ* pVal);

#define DShQ_REQUIRED_BYTES_FOR_ACN_ENCODING       43
#define DShQ_REQUIRED_BITS_FOR_ACN_ENCODING        339

#define ERR_ACN_ENCODE_DSHQ		1934  /**/
#define ERR_ACN_ENCODE_DSHQ_H		1852  /**/
#define ERR_ACN_ENCODE_DSHQ_H_V		1839  /**/
#define ERR_ACN_ENCODE_UPDATE_DSHQ_H_N		1843  /**/
#define ERR_ACN_ENCODE_DSHQ_H_N_UNINITIALIZED		1935  /**/
#define ERR_ACN_ENCODE_DSHQ_H_N		1841  /**/
#define ERR_ACN_ENCODE_DSHQ_H_E		1847  /**/
#define ERR_ACN_ENCODE_DSHQ_B		1885  /**/
#define ERR_ACN_ENCODE_DSHQ_B_X		1860  /**/
#define ERR_ACN_ENCODE_DSHQ_B_S		1875  /**/
#define ERR_ACN_ENCODE_DSHQ_B_S_ELM_2		1870  /**/
#define ERR_ACN_ENCODE_DSHQ_B_Y		1880  /**/
#define ERR_ACN_ENCODE_DSHQ_M		1893  /**/
#define ERR_ACN_ENCODE_DSHQ_C		1913  /**/
#define ERR_ACN_ENCODE_DSHQ_C_X		1898  /**/
#define ERR_ACN_ENCODE_DSHQ_C_S		1903  /**/
#define ERR_ACN_ENCODE_DSHQ_C_Y		1908  /**/
#define ERR_ACN_ENCODE_DSHQ_D		1921  /**/
#define ERR_ACN_ENCODE_DSHQ_T		1929  /**/

flag DShQ_ACN_Encode(const DShQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DSHQ		1936  /**/
#define ERR_ACN_DECODE_DSHQ_H		1853  /**/
#define ERR_ACN_DECODE_DSHQ_H_V		1840  /**/
#define ERR_ACN_DECODE_DSHQ_H_N		1842  /**/
#define ERR_ACN_DECODE_DSHQ_H_E		1848  /**/
#define ERR_ACN_DECODE_DSHQ_B		1886  /**/
#define ERR_ACN_DECODE_DSHQ_B_X		1861  /**/
#define ERR_ACN_DECODE_DSHQ_B_S		1876  /**/
#define ERR_ACN_DECODE_DSHQ_B_S_ELM_2		1871  /**/
#define ERR_ACN_DECODE_DSHQ_B_Y		1881  /**/
#define ERR_ACN_DECODE_DSHQ_M		1894  /**/
#define ERR_ACN_DECODE_DSHQ_C		1914  /**/
#define ERR_ACN_DECODE_DSHQ_C_X		1899  /**/
#define ERR_ACN_DECODE_DSHQ_C_S		1904  /**/
#define ERR_ACN_DECODE_DSHQ_C_Y		1909  /**/
#define ERR_ACN_DECODE_DSHQ_D		1922  /**/
#define ERR_ACN_DECODE_DSHQ_T		1930  /**/
flag DShQ_ACN_Decode(DShQ* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint Len2;


flag Len2_Equal(const Len2* pVal1, const Len2* pVal2);

#define ERR_LEN2		1937  /*(2..20)*/
flag Len2_IsConstraintValid(const Len2* pVal, int* pErrCode);

void Len2_Initialize(Len2* pVal);

#define Len2_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define Len2_REQUIRED_BITS_FOR_ACN_ENCODING        5

#define ERR_ACN_ENCODE_LEN2		1940  /**/

flag Len2_ACN_Encode(const Len2* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_LEN2		1941  /**/
flag Len2_ACN_Decode(Len2* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[20];
} OBM;


flag OBM_Equal(const OBM* pVal1, const OBM* pVal2);

#define ERR_OBM		1942  /*(SIZE(2..20))*/
flag OBM_IsConstraintValid(const OBM* pVal, int* pErrCode);

void OBM_Initialize(OBM* pVal);

#define OBM_REQUIRED_BYTES_FOR_ACN_ENCODING       20
#define OBM_REQUIRED_BITS_FOR_ACN_ENCODING        160
/*-- DUp --------------------------------------------*/
typedef asn1SccUint DUp_t;

typedef struct {
    DHdr h;
    OBM b;
    DUp_t t;

} DUp;

flag DUp_t_Equal(const DUp_t* pVal1, const DUp_t* pVal2);

flag DUp_Equal(const DUp* pVal1, const DUp* pVal2);

#define ERR_DUP_T		1975  /*(0..31)*/
flag DUp_t_IsConstraintValid(const DUp_t* pVal, int* pErrCode);

#define ERR_DUP		1980  /**/
#define ERR_DUP_H_2		1964  /**/
#define ERR_DUP_B_2		1972  /**/
flag DUp_IsConstraintValid(const DUp* pVal, int* pErrCode);

void DUp_t_Initialize(DUp_t* pVal);
void DUp_Initialize(DUp* pVal);

#define DUp_REQUIRED_BYTES_FOR_ACN_ENCODING       22
#define DUp_REQUIRED_BITS_FOR_ACN_ENCODING        175

#define ERR_ACN_ENCODE_DUP		1983  /**/
#define ERR_ACN_ENCODE_DUP_H		1962  /**/
#define ERR_ACN_ENCODE_DUP_H_V		1950  /**/
#define ERR_ACN_ENCODE_DUP_H_N_UNINITIALIZED		1984  /**/
#define ERR_ACN_ENCODE_DUP_H_N		1952  /**/
#define ERR_ACN_ENCODE_DUP_H_E		1957  /**/
#define ERR_ACN_ENCODE_DUP_B		1970  /**/
#define ERR_ACN_ENCODE_DUP_T		1978  /**/

flag DUp_ACN_Encode(const DUp* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DUP		1985  /**/
#define ERR_ACN_DECODE_DUP_H		1963  /**/
#define ERR_ACN_DECODE_DUP_H_V		1951  /**/
#define ERR_ACN_DECODE_DUP_H_N		1953  /**/
#define ERR_ACN_DECODE_DUP_H_E		1958  /**/
#define ERR_ACN_DECODE_DUP_B		1971  /**/
#define ERR_ACN_DECODE_DUP_T		1979  /**/
flag DUp_ACN_Decode(DUp* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint Len3;


flag Len3_Equal(const Len3* pVal1, const Len3* pVal2);

#define ERR_LEN3		1986  /*(0..20)*/
flag Len3_IsConstraintValid(const Len3* pVal, int* pErrCode);

void Len3_Initialize(Len3* pVal);

#define Len3_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define Len3_REQUIRED_BITS_FOR_ACN_ENCODING        5

#define ERR_ACN_ENCODE_LEN3		1989  /**/

flag Len3_ACN_Encode(const Len3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_LEN3		1990  /**/
flag Len3_ACN_Decode(Len3* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[20];
} OB3;


flag OB3_Equal(const OB3* pVal1, const OB3* pVal2);

#define ERR_OB3		1991  /*(SIZE(0..20))*/
flag OB3_IsConstraintValid(const OB3* pVal, int* pErrCode);

void OB3_Initialize(OB3* pVal);

#define OB3_REQUIRED_BYTES_FOR_ACN_ENCODING       20
#define OB3_REQUIRED_BITS_FOR_ACN_ENCODING        160
/*-- DLn --------------------------------------------*/
typedef asn1SccUint DLn_t;

typedef struct {
    DHdr h;
    OB3 b;
    DLn_t t;

} DLn;

flag DLn_t_Equal(const DLn_t* pVal1, const DLn_t* pVal2);

flag DLn_Equal(const DLn* pVal1, const DLn* pVal2);

#define ERR_DLN_T		2024  /*(0..31)*/
flag DLn_t_IsConstraintValid(const DLn_t* pVal, int* pErrCode);

#define ERR_DLN		2029  /**/
#define ERR_DLN_H_2		2013  /**/
#define ERR_DLN_B_2		2021  /**/
flag DLn_IsConstraintValid(const DLn* pVal, int* pErrCode);

void DLn_t_Initialize(DLn_t* pVal);
void DLn_Initialize(DLn* pVal);

#define DLn_REQUIRED_BYTES_FOR_ACN_ENCODING       23
#define DLn_REQUIRED_BITS_FOR_ACN_ENCODING        178

#define ERR_ACN_ENCODE_DLN		2032  /**/
#define ERR_ACN_ENCODE_DLN_H		2011  /**/
#define ERR_ACN_ENCODE_DLN_H_V		1999  /**/
#define ERR_ACN_ENCODE_DLN_H_N_UNINITIALIZED		2033  /**/
#define ERR_ACN_ENCODE_DLN_H_N		2001  /**/
#define ERR_ACN_ENCODE_DLN_H_E		2006  /**/
#define ERR_ACN_ENCODE_DLN_B		2019  /**/
#define ERR_ACN_ENCODE_DLN_T		2027  /**/

flag DLn_ACN_Encode(const DLn* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DLN		2034  /**/
#define ERR_ACN_DECODE_DLN_H		2012  /**/
#define ERR_ACN_DECODE_DLN_H_V		2000  /**/
#define ERR_ACN_DECODE_DLN_H_N		2002  /**/
#define ERR_ACN_DECODE_DLN_H_E		2007  /**/
#define ERR_ACN_DECODE_DLN_B		2020  /**/
#define ERR_ACN_DECODE_DLN_T		2028  /**/
flag DLn_ACN_Decode(DLn* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint Len4;


flag Len4_Equal(const Len4* pVal1, const Len4* pVal2);

#define ERR_LEN4		2035  /*(-20..20)*/
flag Len4_IsConstraintValid(const Len4* pVal, int* pErrCode);

void Len4_Initialize(Len4* pVal);

#define Len4_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define Len4_REQUIRED_BITS_FOR_ACN_ENCODING        6

#define ERR_ACN_ENCODE_LEN4		2038  /**/

flag Len4_ACN_Encode(const Len4* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_LEN4		2039  /**/
flag Len4_ACN_Decode(Len4* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[20];
} OB4;


flag OB4_Equal(const OB4* pVal1, const OB4* pVal2);

#define ERR_OB4		2040  /*(SIZE(0..20))*/
flag OB4_IsConstraintValid(const OB4* pVal, int* pErrCode);

void OB4_Initialize(OB4* pVal);

#define OB4_REQUIRED_BYTES_FOR_ACN_ENCODING       20
#define OB4_REQUIRED_BITS_FOR_ACN_ENCODING        160
/*-- DLs --------------------------------------------*/
typedef asn1SccUint DLs_t;

typedef struct {
    DHdr h;
    OB4 b;
    DLs_t t;

} DLs;

flag DLs_t_Equal(const DLs_t* pVal1, const DLs_t* pVal2);

flag DLs_Equal(const DLs* pVal1, const DLs* pVal2);

#define ERR_DLS_T		2073  /*(0..31)*/
flag DLs_t_IsConstraintValid(const DLs_t* pVal, int* pErrCode);

#define ERR_DLS		2078  /**/
#define ERR_DLS_H_2		2062  /**/
#define ERR_DLS_B_2		2070  /**/
flag DLs_IsConstraintValid(const DLs* pVal, int* pErrCode);

void DLs_t_Initialize(DLs_t* pVal);
void DLs_Initialize(DLs* pVal);

#define DLs_REQUIRED_BYTES_FOR_ACN_ENCODING       23
#define DLs_REQUIRED_BITS_FOR_ACN_ENCODING        178

#define ERR_ACN_ENCODE_DLS		2081  /**/
#define ERR_ACN_ENCODE_DLS_H		2060  /**/
#define ERR_ACN_ENCODE_DLS_H_V		2048  /**/
#define ERR_ACN_ENCODE_DLS_H_N_UNINITIALIZED		2082  /**/
#define ERR_ACN_ENCODE_DLS_H_N		2050  /**/
#define ERR_ACN_ENCODE_DLS_H_E		2055  /**/
#define ERR_ACN_ENCODE_DLS_B		2068  /**/
#define ERR_ACN_ENCODE_DLS_T		2076  /**/

flag DLs_ACN_Encode(const DLs* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DLS		2083  /**/
#define ERR_ACN_DECODE_DLS_H		2061  /**/
#define ERR_ACN_DECODE_DLS_H_V		2049  /**/
#define ERR_ACN_DECODE_DLS_H_N		2051  /**/
#define ERR_ACN_DECODE_DLS_H_E		2056  /**/
#define ERR_ACN_DECODE_DLS_B		2069  /**/
#define ERR_ACN_DECODE_DLS_T		2077  /**/
flag DLs_ACN_Decode(DLs* pVal, BitStream* pBitStrm, int* pErrCode);

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 20 */
    byte arr[3];
} BB3;

flag BB3_Equal(const BB3* pVal1, const BB3* pVal2);

#define ERR_BB3		2084  /*(SIZE(0..20))*/
flag BB3_IsConstraintValid(const BB3* pVal, int* pErrCode);

void BB3_Initialize(BB3* pVal);

#define BB3_REQUIRED_BYTES_FOR_ACN_ENCODING       3
#define BB3_REQUIRED_BITS_FOR_ACN_ENCODING        20
/*-- DLb --------------------------------------------*/
typedef asn1SccUint DLb_t;

typedef struct {
    DHdr h;
    BB3 b;
    DLb_t t;

} DLb;

flag DLb_t_Equal(const DLb_t* pVal1, const DLb_t* pVal2);

flag DLb_Equal(const DLb* pVal1, const DLb* pVal2);

#define ERR_DLB_T		2117  /*(0..31)*/
flag DLb_t_IsConstraintValid(const DLb_t* pVal, int* pErrCode);

#define ERR_DLB		2122  /**/
#define ERR_DLB_H_2		2106  /**/
#define ERR_DLB_B_2		2114  /**/
flag DLb_IsConstraintValid(const DLb* pVal, int* pErrCode);

void DLb_t_Initialize(DLb_t* pVal);
void DLb_Initialize(DLb* pVal);

#define DLb_REQUIRED_BYTES_FOR_ACN_ENCODING       5
#define DLb_REQUIRED_BITS_FOR_ACN_ENCODING        37

#define ERR_ACN_ENCODE_DLB		2125  /**/
#define ERR_ACN_ENCODE_DLB_H		2104  /**/
#define ERR_ACN_ENCODE_DLB_H_V		2092  /**/
#define ERR_ACN_ENCODE_DLB_H_N_UNINITIALIZED		2126  /**/
#define ERR_ACN_ENCODE_DLB_H_N		2094  /**/
#define ERR_ACN_ENCODE_DLB_H_E		2099  /**/
#define ERR_ACN_ENCODE_DLB_B		2112  /**/
#define ERR_ACN_ENCODE_DLB_T		2120  /**/

flag DLb_ACN_Encode(const DLb* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DLB		2127  /**/
#define ERR_ACN_DECODE_DLB_H		2105  /**/
#define ERR_ACN_DECODE_DLB_H_V		2093  /**/
#define ERR_ACN_DECODE_DLB_H_N		2095  /**/
#define ERR_ACN_DECODE_DLB_H_E		2100  /**/
#define ERR_ACN_DECODE_DLB_B		2113  /**/
#define ERR_ACN_DECODE_DLB_T		2121  /**/
flag DLb_ACN_Decode(DLb* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    TgE_t_a = 0,
    TgE_t_b = 1,
    TgE_t_c = 2
} TgE;

// please use the following macros to avoid breaking code.
#define TgE_t_a TgE_t_a
#define TgE_t_b TgE_t_b
#define TgE_t_c TgE_t_c

flag TgE_Equal(const TgE* pVal1, const TgE* pVal2);

#define ERR_TGE		2128  /*t-a | t-b | t-c*/
flag TgE_IsConstraintValid(const TgE* pVal, int* pErrCode);

void TgE_Initialize(TgE* pVal);

#define TgE_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define TgE_REQUIRED_BITS_FOR_ACN_ENCODING        8

#define ERR_ACN_ENCODE_TGE		2131  /**/

flag TgE_ACN_Encode(const TgE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_TGE		2132  /**/
flag TgE_ACN_Decode(TgE* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- PCE --------------------------------------------*/
typedef struct {
    int nCount;
    byte arr[6];
} PCE_t_b;


typedef enum {
    PCE_NONE,
    PCE_t_a_PRESENT,
    PCE_t_b_PRESENT,
    PCE_t_c_PRESENT
} PCE_selection;

typedef union {
    P8 t_a;
    PCE_t_b t_b;
    P32 t_c;
} PCE_unchecked_union;

typedef struct {
    PCE_selection kind;

    PCE_unchecked_union u;
} PCE;

flag PCE_t_b_Equal(const PCE_t_b* pVal1, const PCE_t_b* pVal2);

flag PCE_Equal(const PCE* pVal1, const PCE* pVal2);

#define ERR_PCE_T_B		2143  /*(SIZE(0..6))*/
flag PCE_t_b_IsConstraintValid(const PCE_t_b* pVal, int* pErrCode);

#define ERR_PCE		2158  /**/
#define ERR_PCE_T_A_2		2138  /**/
#define ERR_PCE_T_C_2		2153  /**/
flag PCE_IsConstraintValid(const PCE* pVal, int* pErrCode);

void PCE_t_b_Initialize(PCE_t_b* pVal);
void PCE_Initialize(PCE* pVal);

#define PCE_REQUIRED_BYTES_FOR_ACN_ENCODING       7
#define PCE_REQUIRED_BITS_FOR_ACN_ENCODING        51
/*-- DChE --------------------------------------------*/
typedef asn1SccUint DChE_t;

typedef struct {
    DHdr h;
    flag m;
    PCE b;
    DChE_t t;

} DChE;

flag DChE_t_Equal(const DChE_t* pVal1, const DChE_t* pVal2);

flag DChE_Equal(const DChE* pVal1, const DChE* pVal2);

#define ERR_DCHE_T		2221  /*(0..31)*/
flag DChE_t_IsConstraintValid(const DChE_t* pVal, int* pErrCode);

#define ERR_DCHE		2226  /**/
#define ERR_DCHE_H_2		2180  /**/
#define ERR_DCHE_M		2183  /**/
#define ERR_DCHE_B_2		2218  /**/
flag DChE_IsConstraintValid(const DChE* pVal, int* pErrCode);

void DChE_t_Initialize(DChE_t* pVal);
void DChE_Initialize(DChE* pVal);

#define DChE_REQUIRED_BYTES_FOR_ACN_ENCODING       9
#define DChE_REQUIRED_BITS_FOR_ACN_ENCODING        70

#define ERR_ACN_ENCODE_DCHE		2229  /**/
#define ERR_ACN_ENCODE_DCHE_H		2178  /**/
#define ERR_ACN_ENCODE_DCHE_H_V		2166  /**/
#define ERR_ACN_ENCODE_DCHE_H_K_UNINITIALIZED		2230  /**/
#define ERR_ACN_ENCODE_DCHE_H_K		2168  /**/
#define ERR_ACN_ENCODE_DCHE_H_E		2173  /**/
#define ERR_ACN_ENCODE_DCHE_M		2186  /**/
#define ERR_ACN_ENCODE_DCHE_B		2216  /**/
#define ERR_ACN_ENCODE_DCHE_B_T_A_2		2196  /**/
#define ERR_ACN_ENCODE_DCHE_B_T_B		2201  /**/
#define ERR_ACN_ENCODE_DCHE_B_T_C_2		2211  /**/
#define ERR_ACN_ENCODE_DCHE_T		2224  /**/

flag DChE_ACN_Encode(const DChE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCHE		2231  /**/
#define ERR_ACN_DECODE_DCHE_H		2179  /**/
#define ERR_ACN_DECODE_DCHE_H_V		2167  /**/
#define ERR_ACN_DECODE_DCHE_H_K		2169  /**/
#define ERR_ACN_DECODE_DCHE_H_E		2174  /**/
#define ERR_ACN_DECODE_DCHE_M		2187  /**/
#define ERR_ACN_DECODE_DCHE_B		2217  /**/
#define ERR_ACN_DECODE_DCHE_B_T_A_2		2197  /**/
#define ERR_ACN_DECODE_DCHE_B_T_B		2202  /**/
#define ERR_ACN_DECODE_DCHE_B_T_C_2		2212  /**/
#define ERR_ACN_DECODE_DCHE_T		2225  /**/
flag DChE_ACN_Decode(DChE* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    TgU_t_a = 0,
    TgU_t_b = 1,
    TgU_t_c = 2
} TgU;

// please use the following macros to avoid breaking code.
#define TgU_t_a TgU_t_a
#define TgU_t_b TgU_t_b
#define TgU_t_c TgU_t_c

flag TgU_Equal(const TgU* pVal1, const TgU* pVal2);

#define ERR_TGU		2232  /*t-a | t-b | t-c*/
flag TgU_IsConstraintValid(const TgU* pVal, int* pErrCode);

void TgU_Initialize(TgU* pVal);

#define TgU_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define TgU_REQUIRED_BITS_FOR_ACN_ENCODING        2

#define ERR_ACN_ENCODE_TGU		2235  /**/

flag TgU_ACN_Encode(const TgU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_TGU		2236  /**/
flag TgU_ACN_Decode(TgU* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- PCU --------------------------------------------*/
typedef struct {
    int nCount;
    byte arr[6];
} PCU_t_b;


typedef enum {
    PCU_NONE,
    PCU_t_a_PRESENT,
    PCU_t_b_PRESENT,
    PCU_t_c_PRESENT
} PCU_selection;

typedef union {
    P8 t_a;
    PCU_t_b t_b;
    P32 t_c;
} PCU_unchecked_union;

typedef struct {
    PCU_selection kind;

    PCU_unchecked_union u;
} PCU;

flag PCU_t_b_Equal(const PCU_t_b* pVal1, const PCU_t_b* pVal2);

flag PCU_Equal(const PCU* pVal1, const PCU* pVal2);

#define ERR_PCU_T_B		2247  /*(SIZE(0..6))*/
flag PCU_t_b_IsConstraintValid(const PCU_t_b* pVal, int* pErrCode);

#define ERR_PCU		2262  /**/
#define ERR_PCU_T_A_2		2242  /**/
#define ERR_PCU_T_C_2		2257  /**/
flag PCU_IsConstraintValid(const PCU* pVal, int* pErrCode);

void PCU_t_b_Initialize(PCU_t_b* pVal);
void PCU_Initialize(PCU* pVal);

#define PCU_REQUIRED_BYTES_FOR_ACN_ENCODING       7
#define PCU_REQUIRED_BITS_FOR_ACN_ENCODING        51
/*-- DChU --------------------------------------------*/
typedef asn1SccUint DChU_t;

typedef struct {
    DHdr h;
    flag m;
    PCU b;
    DChU_t t;

} DChU;

flag DChU_t_Equal(const DChU_t* pVal1, const DChU_t* pVal2);

flag DChU_Equal(const DChU* pVal1, const DChU* pVal2);

#define ERR_DCHU_T		2325  /*(0..31)*/
flag DChU_t_IsConstraintValid(const DChU_t* pVal, int* pErrCode);

#define ERR_DCHU		2330  /**/
#define ERR_DCHU_H_2		2284  /**/
#define ERR_DCHU_M		2287  /**/
#define ERR_DCHU_B_2		2322  /**/
flag DChU_IsConstraintValid(const DChU* pVal, int* pErrCode);

void DChU_t_Initialize(DChU_t* pVal);
void DChU_Initialize(DChU* pVal);

#define DChU_REQUIRED_BYTES_FOR_ACN_ENCODING       8
#define DChU_REQUIRED_BITS_FOR_ACN_ENCODING        64

#define ERR_ACN_ENCODE_DCHU		2333  /**/
#define ERR_ACN_ENCODE_DCHU_H		2282  /**/
#define ERR_ACN_ENCODE_DCHU_H_V		2270  /**/
#define ERR_ACN_ENCODE_DCHU_H_K_UNINITIALIZED		2334  /**/
#define ERR_ACN_ENCODE_DCHU_H_K		2272  /**/
#define ERR_ACN_ENCODE_DCHU_H_E		2277  /**/
#define ERR_ACN_ENCODE_DCHU_M		2290  /**/
#define ERR_ACN_ENCODE_DCHU_B		2320  /**/
#define ERR_ACN_ENCODE_DCHU_B_T_A_2		2300  /**/
#define ERR_ACN_ENCODE_DCHU_B_T_B		2305  /**/
#define ERR_ACN_ENCODE_DCHU_B_T_C_2		2315  /**/
#define ERR_ACN_ENCODE_DCHU_T		2328  /**/

flag DChU_ACN_Encode(const DChU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCHU		2335  /**/
#define ERR_ACN_DECODE_DCHU_H		2283  /**/
#define ERR_ACN_DECODE_DCHU_H_V		2271  /**/
#define ERR_ACN_DECODE_DCHU_H_K		2273  /**/
#define ERR_ACN_DECODE_DCHU_H_E		2278  /**/
#define ERR_ACN_DECODE_DCHU_M		2291  /**/
#define ERR_ACN_DECODE_DCHU_B		2321  /**/
#define ERR_ACN_DECODE_DCHU_B_T_A_2		2301  /**/
#define ERR_ACN_DECODE_DCHU_B_T_B		2306  /**/
#define ERR_ACN_DECODE_DCHU_B_T_C_2		2316  /**/
#define ERR_ACN_DECODE_DCHU_T		2329  /**/
flag DChU_ACN_Decode(DChU* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    TgN_t_a = -3,
    TgN_t_b = 0,
    TgN_t_c = 900
} TgN;

// please use the following macros to avoid breaking code.
#define TgN_t_a TgN_t_a
#define TgN_t_b TgN_t_b
#define TgN_t_c TgN_t_c

flag TgN_Equal(const TgN* pVal1, const TgN* pVal2);

#define ERR_TGN		2336  /*t-a | t-b | t-c*/
flag TgN_IsConstraintValid(const TgN* pVal, int* pErrCode);

void TgN_Initialize(TgN* pVal);

#define TgN_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define TgN_REQUIRED_BITS_FOR_ACN_ENCODING        12

#define ERR_ACN_ENCODE_TGN		2339  /**/

flag TgN_ACN_Encode(const TgN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_TGN		2340  /**/
flag TgN_ACN_Decode(TgN* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- PCN --------------------------------------------*/
typedef struct {
    int nCount;
    byte arr[6];
} PCN_t_b;


typedef enum {
    PCN_NONE,
    PCN_t_a_PRESENT,
    PCN_t_b_PRESENT,
    PCN_t_c_PRESENT
} PCN_selection;

typedef union {
    P8 t_a;
    PCN_t_b t_b;
    P32 t_c;
} PCN_unchecked_union;

typedef struct {
    PCN_selection kind;

    PCN_unchecked_union u;
} PCN;

flag PCN_t_b_Equal(const PCN_t_b* pVal1, const PCN_t_b* pVal2);

flag PCN_Equal(const PCN* pVal1, const PCN* pVal2);

#define ERR_PCN_T_B		2351  /*(SIZE(0..6))*/
flag PCN_t_b_IsConstraintValid(const PCN_t_b* pVal, int* pErrCode);

#define ERR_PCN		2366  /**/
#define ERR_PCN_T_A_2		2346  /**/
#define ERR_PCN_T_C_2		2361  /**/
flag PCN_IsConstraintValid(const PCN* pVal, int* pErrCode);

void PCN_t_b_Initialize(PCN_t_b* pVal);
void PCN_Initialize(PCN* pVal);

#define PCN_REQUIRED_BYTES_FOR_ACN_ENCODING       7
#define PCN_REQUIRED_BITS_FOR_ACN_ENCODING        51
/*-- DChN --------------------------------------------*/
typedef asn1SccUint DChN_t;

typedef struct {
    DHdr h;
    flag m;
    PCN b;
    DChN_t t;

} DChN;

flag DChN_t_Equal(const DChN_t* pVal1, const DChN_t* pVal2);

flag DChN_Equal(const DChN* pVal1, const DChN* pVal2);

#define ERR_DCHN_T		2429  /*(0..31)*/
flag DChN_t_IsConstraintValid(const DChN_t* pVal, int* pErrCode);

#define ERR_DCHN		2434  /**/
#define ERR_DCHN_H_2		2388  /**/
#define ERR_DCHN_M		2391  /**/
#define ERR_DCHN_B_2		2426  /**/
flag DChN_IsConstraintValid(const DChN* pVal, int* pErrCode);

void DChN_t_Initialize(DChN_t* pVal);
void DChN_Initialize(DChN* pVal);

#define DChN_REQUIRED_BYTES_FOR_ACN_ENCODING       10
#define DChN_REQUIRED_BITS_FOR_ACN_ENCODING        74

#define ERR_ACN_ENCODE_DCHN		2437  /**/
#define ERR_ACN_ENCODE_DCHN_H		2386  /**/
#define ERR_ACN_ENCODE_DCHN_H_V		2374  /**/
#define ERR_ACN_ENCODE_DCHN_H_K_UNINITIALIZED		2438  /**/
#define ERR_ACN_ENCODE_DCHN_H_K		2376  /**/
#define ERR_ACN_ENCODE_DCHN_H_E		2381  /**/
#define ERR_ACN_ENCODE_DCHN_M		2394  /**/
#define ERR_ACN_ENCODE_DCHN_B		2424  /**/
#define ERR_ACN_ENCODE_DCHN_B_T_A_2		2404  /**/
#define ERR_ACN_ENCODE_DCHN_B_T_B		2409  /**/
#define ERR_ACN_ENCODE_DCHN_B_T_C_2		2419  /**/
#define ERR_ACN_ENCODE_DCHN_T		2432  /**/

flag DChN_ACN_Encode(const DChN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCHN		2439  /**/
#define ERR_ACN_DECODE_DCHN_H		2387  /**/
#define ERR_ACN_DECODE_DCHN_H_V		2375  /**/
#define ERR_ACN_DECODE_DCHN_H_K		2377  /**/
#define ERR_ACN_DECODE_DCHN_H_E		2382  /**/
#define ERR_ACN_DECODE_DCHN_M		2395  /**/
#define ERR_ACN_DECODE_DCHN_B		2425  /**/
#define ERR_ACN_DECODE_DCHN_B_T_A_2		2405  /**/
#define ERR_ACN_DECODE_DCHN_B_T_B		2410  /**/
#define ERR_ACN_DECODE_DCHN_B_T_C_2		2420  /**/
#define ERR_ACN_DECODE_DCHN_T		2433  /**/
flag DChN_ACN_Decode(DChN* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DAll --------------------------------------------*/
typedef asn1SccUint DAll_x;



typedef struct {
    int nCount;
    DW12 arr[4];
} DAll_b;
typedef struct {
    unsigned long a:1;
} DAll_exist;
typedef struct {
    DAll_x x;
    DSh a;
    DAll_b b;
    DFwd c;
    DCo d;
    DChN e;
    DPrB f;

    DAll_exist exist;

} DAll;

flag DAll_x_Equal(const DAll_x* pVal1, const DAll_x* pVal2);

flag DAll_b_Equal(const DAll_b* pVal1, const DAll_b* pVal2);

flag DAll_Equal(const DAll* pVal1, const DAll* pVal2);

#define ERR_DALL_X		2440  /*(0..7)*/
flag DAll_x_IsConstraintValid(const DAll_x* pVal, int* pErrCode);

#define ERR_DALL_B		2455  /*(SIZE(0..4))*/
#define ERR_DALL_B_ELM		2450  /**/
flag DAll_b_IsConstraintValid(const DAll_b* pVal, int* pErrCode);

#define ERR_DALL		2480  /**/
#define ERR_DALL_A		2445  /**/
#define ERR_DALL_C		2460  /**/
#define ERR_DALL_D		2465  /**/
#define ERR_DALL_E		2470  /**/
#define ERR_DALL_F		2475  /**/
flag DAll_IsConstraintValid(const DAll* pVal, int* pErrCode);

void DAll_x_Initialize(DAll_x* pVal);
void DAll_b_Initialize(DAll_b* pVal);
void DAll_Initialize(DAll* pVal);

#define DAll_REQUIRED_BYTES_FOR_ACN_ENCODING       164
#define DAll_REQUIRED_BITS_FOR_ACN_ENCODING        1312

#define ERR_ACN_ENCODE_DALL		2483  /**/
#define ERR_ACN_ENCODE_DALL_X		2443  /**/
#define ERR_ACN_ENCODE_DALL_A		2448  /**/
#define ERR_ACN_ENCODE_DALL_B		2458  /**/
#define ERR_ACN_ENCODE_DALL_B_ELM		2453  /**/
#define ERR_ACN_ENCODE_DALL_C		2463  /**/
#define ERR_ACN_ENCODE_DALL_D		2468  /**/
#define ERR_ACN_ENCODE_DALL_E		2473  /**/
#define ERR_ACN_ENCODE_DALL_F		2478  /**/

flag DAll_ACN_Encode(const DAll* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DALL		2484  /**/
#define ERR_ACN_DECODE_DALL_X		2444  /**/
#define ERR_ACN_DECODE_DALL_A		2449  /**/
#define ERR_ACN_DECODE_DALL_B		2459  /**/
#define ERR_ACN_DECODE_DALL_B_ELM		2454  /**/
#define ERR_ACN_DECODE_DALL_C		2464  /**/
#define ERR_ACN_DECODE_DALL_D		2469  /**/
#define ERR_ACN_DECODE_DALL_E		2474  /**/
#define ERR_ACN_DECODE_DALL_F		2479  /**/
flag DAll_ACN_Decode(DAll* pVal, BitStream* pBitStrm, int* pErrCode);


/* ================= Encoding/Decoding function prototypes =================
 * These functions are placed at the end of the file to make sure all types
 * have been declared first, in case of parameterized ACN encodings
 * ========================================================================= */



#ifdef  __cplusplus
}

#endif

#endif
