#ifndef GENERATED_ASN1SCC_ACM_H
#define GENERATED_ASN1SCC_ACM_H
/*
Code automatically generated by asn1scc tool
*/
#include "asn1crt.h"
#include "asn1crt_encoding.h"


#ifdef  __cplusplus
extern "C" {
#endif


typedef asn1SccUint P5;


flag P5_Equal(const P5* pVal1, const P5* pVal2);

#define ERR_P5		1  /*(0..31)*/
flag P5_IsConstraintValid(const P5* pVal, int* pErrCode);

void P5_Initialize(P5* pVal);

#define P5_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define P5_REQUIRED_BITS_FOR_ACN_ENCODING        5

#define ERR_ACN_ENCODE_P5		4  /**/

flag P5_ACN_Encode(const P5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P5		5  /**/
flag P5_ACN_Decode(P5* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DSz --------------------------------------------*/
typedef struct {
    int nCount;
    byte arr[60];
} DSz_d_o;

typedef asn1SccUint DSz_d_m;


typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 90 */
    byte arr[12];
} DSz_d_b;


typedef struct {
    int nCount;
    P5 arr[9];
} DSz_d_q;
typedef char DSz_d_s[16];
typedef char DSz_d_t[7];
typedef struct {
    DSz_d_o d_o;
    DSz_d_m d_m;
    DSz_d_b d_b;
    DSz_d_q d_q;
    DSz_d_s d_s;
    DSz_d_t d_t;

} DSz;

flag DSz_d_o_Equal(const DSz_d_o* pVal1, const DSz_d_o* pVal2);

flag DSz_d_m_Equal(const DSz_d_m* pVal1, const DSz_d_m* pVal2);

flag DSz_d_b_Equal(const DSz_d_b* pVal1, const DSz_d_b* pVal2);

flag DSz_d_q_Equal(const DSz_d_q* pVal1, const DSz_d_q* pVal2);

flag DSz_d_s_Equal(const DSz_d_s pVal1, const DSz_d_s pVal2);

flag DSz_d_t_Equal(const DSz_d_t pVal1, const DSz_d_t pVal2);

flag DSz_Equal(const DSz* pVal1, const DSz* pVal2);

#define ERR_DSZ_D_O		8  /*(SIZE(0..60))*/
flag DSz_d_o_IsConstraintValid(const DSz_d_o* pVal, int* pErrCode);

#define ERR_DSZ_D_M		15  /*(0..3)*/
flag DSz_d_m_IsConstraintValid(const DSz_d_m* pVal, int* pErrCode);

#define ERR_DSZ_D_B		20  /*(SIZE(0..90))*/
flag DSz_d_b_IsConstraintValid(const DSz_d_b* pVal, int* pErrCode);

#define ERR_DSZ_D_Q		39  /*(SIZE(0..9))*/
#define ERR_DSZ_D_Q_ELM_2		34  /**/
flag DSz_d_q_IsConstraintValid(const DSz_d_q* pVal, int* pErrCode);

#define ERR_DSZ_D_S		44  /*(SIZE(0..15))*/
flag DSz_d_s_IsConstraintValid(const DSz_d_s pVal, int* pErrCode);

#define ERR_DSZ_D_T		51  /*(SIZE(0..6))(FROM ("A".."Z"))*/
flag DSz_d_t_IsConstraintValid(const DSz_d_t pVal, int* pErrCode);

#define ERR_DSZ		56  /**/
flag DSz_IsConstraintValid(const DSz* pVal, int* pErrCode);

void DSz_d_o_Initialize(DSz_d_o* pVal);
void DSz_d_m_Initialize(DSz_d_m* pVal);
void DSz_d_b_Initialize(DSz_d_b* pVal);
void DSz_d_q_Initialize(DSz_d_q* pVal);
void DSz_d_s_Initialize(DSz_d_s pVal);
void DSz_d_t_Initialize(DSz_d_t pVal);
void DSz_Initialize(DSz* pVal);

#define DSz_REQUIRED_BYTES_FOR_ACN_ENCODING       102
#define DSz_REQUIRED_BITS_FOR_ACN_ENCODING        810

#define ERR_ACN_ENCODE_DSZ		59  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_O_UNINITIALIZED		60  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_O		6  /**/
#define ERR_ACN_ENCODE_DSZ_D_O		11  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_B_UNINITIALIZED		61  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_B		13  /**/
#define ERR_ACN_ENCODE_DSZ_D_M		18  /**/
#define ERR_ACN_ENCODE_DSZ_D_B		23  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_Q_UNINITIALIZED		62  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_Q		25  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_S_UNINITIALIZED		63  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_S		27  /**/
#define ERR_ACN_ENCODE_DSZ_D_Q		42  /**/
#define ERR_ACN_ENCODE_DSZ_D_Q_ELM_2		37  /**/
#define ERR_ACN_ENCODE_DSZ_D_S		47  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_T_UNINITIALIZED		64  /**/
#define ERR_ACN_ENCODE_DSZ_LEN_T		49  /**/
#define ERR_ACN_ENCODE_DSZ_D_T		54  /**/

flag DSz_ACN_Encode(const DSz* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DSZ		65  /**/
#define ERR_ACN_DECODE_DSZ_LEN_O		7  /**/
#define ERR_ACN_DECODE_DSZ_D_O		12  /**/
#define ERR_ACN_DECODE_DSZ_LEN_B		14  /**/
#define ERR_ACN_DECODE_DSZ_D_M		19  /**/
#define ERR_ACN_DECODE_DSZ_D_B		24  /**/
#define ERR_ACN_DECODE_DSZ_LEN_Q		26  /**/
#define ERR_ACN_DECODE_DSZ_LEN_S		28  /**/
#define ERR_ACN_DECODE_DSZ_D_Q		43  /**/
#define ERR_ACN_DECODE_DSZ_D_Q_ELM_2		38  /**/
#define ERR_ACN_DECODE_DSZ_D_S		48  /**/
#define ERR_ACN_DECODE_DSZ_LEN_T		50  /**/
#define ERR_ACN_DECODE_DSZ_D_T		55  /**/
flag DSz_ACN_Decode(DSz* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    int nCount;
    DSz arr[4];
} ALog;

flag ALog_Equal(const ALog* pVal1, const ALog* pVal2);

#define ERR_ALOG		71  /*(SIZE(0..4))*/
#define ERR_ALOG_ELM		66  /**/
flag ALog_IsConstraintValid(const ALog* pVal, int* pErrCode);

void ALog_Initialize(ALog* pVal);

#define ALog_REQUIRED_BYTES_FOR_ACN_ENCODING       406
#define ALog_REQUIRED_BITS_FOR_ACN_ENCODING        3243

#define ERR_ACN_ENCODE_ALOG		74  /**/
#define ERR_ACN_ENCODE_ALOG_ELM		69  /**/

flag ALog_ACN_Encode(const ALog* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ALOG		75  /**/
#define ERR_ACN_DECODE_ALOG_ELM		70  /**/
flag ALog_ACN_Decode(ALog* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P8;


flag P8_Equal(const P8* pVal1, const P8* pVal2);

#define ERR_P8		76  /*(0..255)*/
flag P8_IsConstraintValid(const P8* pVal, int* pErrCode);

void P8_Initialize(P8* pVal);

#define P8_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define P8_REQUIRED_BITS_FOR_ACN_ENCODING        8

#define ERR_ACN_ENCODE_P8		79  /**/

flag P8_ACN_Encode(const P8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P8		80  /**/
flag P8_ACN_Decode(P8* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Body --------------------------------------------*/
typedef asn1SccUint Body_b_m;

typedef struct {
    int nCount;
    byte arr[20];
} Body_b_o;

typedef struct {
    unsigned long b_p:1;
} Body_exist;
typedef struct {
    Body_b_m b_m;
    Body_b_o b_o;
    P8 b_p;

    Body_exist exist;

} Body;

flag Body_b_m_Equal(const Body_b_m* pVal1, const Body_b_m* pVal2);

flag Body_b_o_Equal(const Body_b_o* pVal1, const Body_b_o* pVal2);

flag Body_Equal(const Body* pVal1, const Body* pVal2);

#define ERR_BODY_B_M		81  /*(0..7)*/
flag Body_b_m_IsConstraintValid(const Body_b_m* pVal, int* pErrCode);

#define ERR_BODY_B_O		86  /*(SIZE(0..20))*/
flag Body_b_o_IsConstraintValid(const Body_b_o* pVal, int* pErrCode);

#define ERR_BODY		99  /**/
#define ERR_BODY_B_P_2		96  /**/
flag Body_IsConstraintValid(const Body* pVal, int* pErrCode);

void Body_b_m_Initialize(Body_b_m* pVal);
void Body_b_o_Initialize(Body_b_o* pVal);
void Body_Initialize(Body* pVal);

#define Body_REQUIRED_BYTES_FOR_ACN_ENCODING       22
#define Body_REQUIRED_BITS_FOR_ACN_ENCODING        171
/*-- PktI --------------------------------------------*/
/*-- PktI_hdr --------------------------------------------*/
typedef asn1SccUint PktI_hdr_h_ver;

typedef asn1SccUint PktI_hdr_h_end;

typedef struct {
    PktI_hdr_h_ver h_ver;
    PktI_hdr_h_end h_end;

} PktI_hdr;
typedef struct {
    PktI_hdr hdr;
    Body bdy;
    P8 trail;

} PktI;

flag PktI_hdr_h_ver_Equal(const PktI_hdr_h_ver* pVal1, const PktI_hdr_h_ver* pVal2);

flag PktI_hdr_h_end_Equal(const PktI_hdr_h_end* pVal1, const PktI_hdr_h_end* pVal2);

flag PktI_hdr_Equal(const PktI_hdr* pVal1, const PktI_hdr* pVal2);

flag PktI_Equal(const PktI* pVal1, const PktI* pVal2);

#define ERR_PKTI_HDR_H_VER		104  /*(0..7)*/
flag PktI_hdr_h_ver_IsConstraintValid(const PktI_hdr_h_ver* pVal, int* pErrCode);

#define ERR_PKTI_HDR_H_END		113  /*(0..3)*/
flag PktI_hdr_h_end_IsConstraintValid(const PktI_hdr_h_end* pVal, int* pErrCode);

#define ERR_PKTI_HDR		118  /**/
flag PktI_hdr_IsConstraintValid(const PktI_hdr* pVal, int* pErrCode);

#define ERR_PKTI		159  /**/
#define ERR_PKTI_BDY_2		146  /**/
#define ERR_PKTI_TRAIL_2		154  /**/
flag PktI_IsConstraintValid(const PktI* pVal, int* pErrCode);

void PktI_hdr_h_ver_Initialize(PktI_hdr_h_ver* pVal);
void PktI_hdr_h_end_Initialize(PktI_hdr_h_end* pVal);
void PktI_hdr_Initialize(PktI_hdr* pVal);
void PktI_Initialize(PktI* pVal);

#define PktI_REQUIRED_BYTES_FOR_ACN_ENCODING       26
#define PktI_REQUIRED_BITS_FOR_ACN_ENCODING        201

#define ERR_ACN_ENCODE_PKTI		162  /**/
#define ERR_ACN_ENCODE_PKTI_HDR		121  /**/
#define ERR_ACN_ENCODE_PKTI_HDR_H_VER		107  /**/
#define ERR_ACN_ENCODE_PKTI_HDR_PLEN1_UNINITIALIZED		163  /**/
#define ERR_ACN_ENCODE_PKTI_HDR_PLEN1		109  /**/
#define ERR_ACN_ENCODE_PKTI_HDR_PFL1_UNINITIALIZED		164  /**/
#define ERR_ACN_ENCODE_PKTI_HDR_PFL1		111  /**/
#define ERR_ACN_ENCODE_PKTI_HDR_H_END		116  /**/
#define ERR_ACN_ENCODE_PKTI_BDY		144  /**/
#define ERR_ACN_ENCODE_PKTI_BDY_B_M		126  /**/
#define ERR_ACN_ENCODE_PKTI_BDY_B_O		131  /**/
#define ERR_ACN_ENCODE_PKTI_BDY_B_P		136  /**/
#define ERR_ACN_ENCODE_PKTI_TRAIL_2		157  /**/

flag PktI_ACN_Encode(const PktI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_PKTI		165  /**/
#define ERR_ACN_DECODE_PKTI_HDR		122  /**/
#define ERR_ACN_DECODE_PKTI_HDR_H_VER		108  /**/
#define ERR_ACN_DECODE_PKTI_HDR_PLEN1		110  /**/
#define ERR_ACN_DECODE_PKTI_HDR_PFL1		112  /**/
#define ERR_ACN_DECODE_PKTI_HDR_H_END		117  /**/
#define ERR_ACN_DECODE_PKTI_BDY		145  /**/
#define ERR_ACN_DECODE_PKTI_BDY_B_M		127  /**/
#define ERR_ACN_DECODE_PKTI_BDY_B_O		132  /**/
#define ERR_ACN_DECODE_PKTI_BDY_B_P		137  /**/
#define ERR_ACN_DECODE_PKTI_TRAIL_2		158  /**/
flag PktI_ACN_Decode(PktI* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnF --------------------------------------------*/
typedef asn1SccUint CnF_a;

typedef struct {
    CnF_a a;
    P8 b;

} CnF;

flag CnF_a_Equal(const CnF_a* pVal1, const CnF_a* pVal2);

flag CnF_Equal(const CnF* pVal1, const CnF* pVal2);

#define ERR_CNF_A		166  /*(0..7)*/
flag CnF_a_IsConstraintValid(const CnF_a* pVal, int* pErrCode);

#define ERR_CNF		181  /**/
#define ERR_CNF_B_2		176  /**/
flag CnF_IsConstraintValid(const CnF* pVal, int* pErrCode);

void CnF_a_Initialize(CnF_a* pVal);
void CnF_Initialize(CnF* pVal);

#define CnF_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define CnF_REQUIRED_BITS_FOR_ACN_ENCODING        11

#define ERR_ACN_ENCODE_CNF		184  /**/
#define ERR_ACN_ENCODE_CNF_A		169  /**/
#define ERR_ACN_ENCODE_CNF_B_2		179  /**/

flag CnF_ACN_Encode(const CnF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CNF		185  /**/
#define ERR_ACN_DECODE_CNF_A		170  /**/
#define ERR_ACN_DECODE_CNF_B_2		180  /**/
flag CnF_ACN_Decode(CnF* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnX --------------------------------------------*/
typedef asn1SccUint CnX_p;

typedef asn1SccUint CnX_t;

typedef struct {
    unsigned long d:1;
} CnX_exist;
typedef struct {
    CnX_p p;
    CnF c;
    CnF d;
    CnX_t t;

    CnX_exist exist;

} CnX;

flag CnX_p_Equal(const CnX_p* pVal1, const CnX_p* pVal2);

flag CnX_t_Equal(const CnX_t* pVal1, const CnX_t* pVal2);

flag CnX_Equal(const CnX* pVal1, const CnX* pVal2);

#define ERR_CNX_P		186  /*(0..7)*/
flag CnX_p_IsConstraintValid(const CnX_p* pVal, int* pErrCode);

#define ERR_CNX_T		241  /*(0..31)*/
flag CnX_t_IsConstraintValid(const CnX_t* pVal, int* pErrCode);

#define ERR_CNX		246  /**/
#define ERR_CNX_C_2		211  /**/
#define ERR_CNX_D_2		236  /**/
flag CnX_IsConstraintValid(const CnX* pVal, int* pErrCode);

void CnX_p_Initialize(CnX_p* pVal);
void CnX_t_Initialize(CnX_t* pVal);
void CnX_Initialize(CnX* pVal);

#define CnX_REQUIRED_BYTES_FOR_ACN_ENCODING       5
#define CnX_REQUIRED_BITS_FOR_ACN_ENCODING        36

#define ERR_ACN_ENCODE_CNX		249  /**/
#define ERR_ACN_ENCODE_CNX_P		189  /**/
#define ERR_ACN_ENCODE_CNX_C_2		214  /**/
#define ERR_ACN_ENCODE_CNX_D_2		239  /**/
#define ERR_ACN_ENCODE_CNX_T		244  /**/

flag CnX_ACN_Encode(const CnX* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CNX		250  /**/
#define ERR_ACN_DECODE_CNX_P		190  /**/
#define ERR_ACN_DECODE_CNX_C_2		215  /**/
#define ERR_ACN_DECODE_CNX_D_2		240  /**/
#define ERR_ACN_DECODE_CNX_T		245  /**/
flag CnX_ACN_Decode(CnX* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P16;


flag P16_Equal(const P16* pVal1, const P16* pVal2);

#define ERR_P16		251  /*(0..65535)*/
flag P16_IsConstraintValid(const P16* pVal, int* pErrCode);

void P16_Initialize(P16* pVal);

#define P16_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define P16_REQUIRED_BITS_FOR_ACN_ENCODING        16

#define ERR_ACN_ENCODE_P16		254  /**/

flag P16_ACN_Encode(const P16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P16		255  /**/
flag P16_ACN_Decode(P16* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P16L;


flag P16L_Equal(const P16L* pVal1, const P16L* pVal2);

#define ERR_P16L		256  /*(0..65535)*/
flag P16L_IsConstraintValid(const P16L* pVal, int* pErrCode);

void P16L_Initialize(P16L* pVal);

#define P16L_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define P16L_REQUIRED_BITS_FOR_ACN_ENCODING        16

#define ERR_ACN_ENCODE_P16L		259  /**/

flag P16L_ACN_Encode(const P16L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P16L		260  /**/
flag P16L_ACN_Decode(P16L* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P32;


flag P32_Equal(const P32* pVal1, const P32* pVal2);

#define ERR_P32		261  /*(0..4294967295)*/
flag P32_IsConstraintValid(const P32* pVal, int* pErrCode);

void P32_Initialize(P32* pVal);

#define P32_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define P32_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_P32		264  /**/

flag P32_ACN_Encode(const P32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P32		265  /**/
flag P32_ACN_Decode(P32* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P32L;


flag P32L_Equal(const P32L* pVal1, const P32L* pVal2);

#define ERR_P32L		266  /*(0..4294967295)*/
flag P32L_IsConstraintValid(const P32L* pVal, int* pErrCode);

void P32L_Initialize(P32L* pVal);

#define P32L_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define P32L_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_P32L		269  /**/

flag P32L_ACN_Encode(const P32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P32L		270  /**/
flag P32L_ACN_Decode(P32L* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint P24;


flag P24_Equal(const P24* pVal1, const P24* pVal2);

#define ERR_P24		271  /*(3..16777211)*/
flag P24_IsConstraintValid(const P24* pVal, int* pErrCode);

void P24_Initialize(P24* pVal);

#define P24_REQUIRED_BYTES_FOR_ACN_ENCODING       3
#define P24_REQUIRED_BITS_FOR_ACN_ENCODING        24

#define ERR_ACN_ENCODE_P24		274  /**/

flag P24_ACN_Encode(const P24* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_P24		275  /**/
flag P24_ACN_Decode(P24* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint T5;


flag T5_Equal(const T5* pVal1, const T5* pVal2);

#define ERR_T5		276  /*(-16..15)*/
flag T5_IsConstraintValid(const T5* pVal, int* pErrCode);

void T5_Initialize(T5* pVal);

#define T5_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define T5_REQUIRED_BITS_FOR_ACN_ENCODING        5

#define ERR_ACN_ENCODE_T5		279  /**/

flag T5_ACN_Encode(const T5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_T5		280  /**/
flag T5_ACN_Decode(T5* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint T8;


flag T8_Equal(const T8* pVal1, const T8* pVal2);

#define ERR_T8		281  /*(-128..127)*/
flag T8_IsConstraintValid(const T8* pVal, int* pErrCode);

void T8_Initialize(T8* pVal);

#define T8_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define T8_REQUIRED_BITS_FOR_ACN_ENCODING        8

#define ERR_ACN_ENCODE_T8		284  /**/

flag T8_ACN_Encode(const T8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_T8		285  /**/
flag T8_ACN_Decode(T8* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint T16;


flag T16_Equal(const T16* pVal1, const T16* pVal2);

#define ERR_T16		286  /*(-32768..32767)*/
flag T16_IsConstraintValid(const T16* pVal, int* pErrCode);

void T16_Initialize(T16* pVal);

#define T16_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define T16_REQUIRED_BITS_FOR_ACN_ENCODING        16

#define ERR_ACN_ENCODE_T16		289  /**/

flag T16_ACN_Encode(const T16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_T16		290  /**/
flag T16_ACN_Decode(T16* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    int nCount;
    T16 arr[7];
} ASo;

flag ASo_Equal(const ASo* pVal1, const ASo* pVal2);

#define ERR_ASO		301  /*(SIZE(0..7))*/
#define ERR_ASO_ELM_2		296  /**/
flag ASo_IsConstraintValid(const ASo* pVal, int* pErrCode);

void ASo_Initialize(ASo* pVal);

#define ASo_REQUIRED_BYTES_FOR_ACN_ENCODING       15
#define ASo_REQUIRED_BITS_FOR_ACN_ENCODING        115

#define ERR_ACN_ENCODE_ASO		304  /**/
#define ERR_ACN_ENCODE_ASO_ELM_2		299  /**/

flag ASo_ACN_Encode(const ASo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ASO		305  /**/
#define ERR_ACN_DECODE_ASO_ELM_2		300  /**/
flag ASo_ACN_Decode(ASo* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint T16L;


flag T16L_Equal(const T16L* pVal1, const T16L* pVal2);

#define ERR_T16L		306  /*(-32768..32767)*/
flag T16L_IsConstraintValid(const T16L* pVal, int* pErrCode);

void T16L_Initialize(T16L* pVal);

#define T16L_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define T16L_REQUIRED_BITS_FOR_ACN_ENCODING        16

#define ERR_ACN_ENCODE_T16L		309  /**/

flag T16L_ACN_Encode(const T16L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_T16L		310  /**/
flag T16L_ACN_Decode(T16L* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint T32;


flag T32_Equal(const T32* pVal1, const T32* pVal2);

#define ERR_T32		311  /*(-2147483648..2147483647)*/
flag T32_IsConstraintValid(const T32* pVal, int* pErrCode);

void T32_Initialize(T32* pVal);

#define T32_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define T32_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_T32		314  /**/

flag T32_ACN_Encode(const T32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_T32		315  /**/
flag T32_ACN_Decode(T32* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint T32L;


flag T32L_Equal(const T32L* pVal1, const T32L* pVal2);

#define ERR_T32L		316  /*(-2147483648..2147483647)*/
flag T32L_IsConstraintValid(const T32L* pVal, int* pErrCode);

void T32L_Initialize(T32L* pVal);

#define T32L_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define T32L_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_T32L		319  /**/

flag T32L_ACN_Encode(const T32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_T32L		320  /**/
flag T32L_ACN_Decode(T32L* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint T20;


flag T20_Equal(const T20* pVal1, const T20* pVal2);

#define ERR_T20		321  /*(-524288..524285)*/
flag T20_IsConstraintValid(const T20* pVal, int* pErrCode);

void T20_Initialize(T20* pVal);

#define T20_REQUIRED_BYTES_FOR_ACN_ENCODING       3
#define T20_REQUIRED_BITS_FOR_ACN_ENCODING        20

#define ERR_ACN_ENCODE_T20		324  /**/

flag T20_ACN_Encode(const T20* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_T20		325  /**/
flag T20_ACN_Decode(T20* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint Bcd5;


flag Bcd5_Equal(const Bcd5* pVal1, const Bcd5* pVal2);

#define ERR_BCD5		326  /*(0..99999)*/
flag Bcd5_IsConstraintValid(const Bcd5* pVal, int* pErrCode);

void Bcd5_Initialize(Bcd5* pVal);

#define Bcd5_REQUIRED_BYTES_FOR_ACN_ENCODING       3
#define Bcd5_REQUIRED_BITS_FOR_ACN_ENCODING        20

#define ERR_ACN_ENCODE_BCD5		329  /**/

flag Bcd5_ACN_Encode(const Bcd5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_BCD5		330  /**/
flag Bcd5_ACN_Decode(Bcd5* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint As6;


flag As6_Equal(const As6* pVal1, const As6* pVal2);

#define ERR_AS6		331  /*(0..99999)*/
flag As6_IsConstraintValid(const As6* pVal, int* pErrCode);

void As6_Initialize(As6* pVal);

#define As6_REQUIRED_BYTES_FOR_ACN_ENCODING       6
#define As6_REQUIRED_BITS_FOR_ACN_ENCODING        48

#define ERR_ACN_ENCODE_AS6		334  /**/

flag As6_ACN_Encode(const As6* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_AS6		335  /**/
flag As6_ACN_Decode(As6* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint AsS;


flag AsS_Equal(const AsS* pVal1, const AsS* pVal2);

#define ERR_ASS		336  /*(-9999..9999)*/
flag AsS_IsConstraintValid(const AsS* pVal, int* pErrCode);

void AsS_Initialize(AsS* pVal);

#define AsS_REQUIRED_BYTES_FOR_ACN_ENCODING       5
#define AsS_REQUIRED_BITS_FOR_ACN_ENCODING        40

#define ERR_ACN_ENCODE_ASS		339  /**/

flag AsS_ACN_Encode(const AsS* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ASS		340  /**/
flag AsS_ACN_Decode(AsS* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint AU;


flag AU_Equal(const AU* pVal1, const AU* pVal2);

#define ERR_AU		341  /*(3..74)*/
flag AU_IsConstraintValid(const AU* pVal, int* pErrCode);

void AU_Initialize(AU* pVal);

#define AU_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define AU_REQUIRED_BITS_FOR_ACN_ENCODING        7

#define ERR_ACN_ENCODE_AU		344  /**/

flag AU_ACN_Encode(const AU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_AU		345  /**/
flag AU_ACN_Decode(AU* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint AB;


flag AB_Equal(const AB* pVal1, const AB* pVal2);

#define ERR_AB		346  /**/
flag AB_IsConstraintValid(const AB* pVal, int* pErrCode);

void AB_Initialize(AB* pVal);

#define AB_REQUIRED_BYTES_FOR_ACN_ENCODING       9
#define AB_REQUIRED_BITS_FOR_ACN_ENCODING        72

#define ERR_ACN_ENCODE_AB		349  /**/

flag AB_ACN_Encode(const AB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_AB		350  /**/
flag AB_ACN_Decode(AB* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Ints --------------------------------------------*/
typedef struct {
    P5 i_a;
    P16L i_b;
    T16 i_c;
    T32L i_d;
    Bcd5 i_g;
    As6 i_i;
    AsS i_j;
    AB i_o;
    P32 i_p;
    T8 i_q;
    P32L i_t;
    T20 i_u;

} Ints;

flag Ints_Equal(const Ints* pVal1, const Ints* pVal2);

#define ERR_INTS		471  /**/
#define ERR_INTS_I_A_2		356  /**/
#define ERR_INTS_I_B_2		366  /**/
#define ERR_INTS_I_C_2		376  /**/
#define ERR_INTS_I_D_2		386  /**/
#define ERR_INTS_I_G_2		396  /**/
#define ERR_INTS_I_I_2		406  /**/
#define ERR_INTS_I_J_2		416  /**/
#define ERR_INTS_I_O_2		426  /**/
#define ERR_INTS_I_P_2		436  /**/
#define ERR_INTS_I_Q_2		446  /**/
#define ERR_INTS_I_T_2		456  /**/
#define ERR_INTS_I_U_2		466  /**/
flag Ints_IsConstraintValid(const Ints* pVal, int* pErrCode);

void Ints_Initialize(Ints* pVal);

#define Ints_REQUIRED_BYTES_FOR_ACN_ENCODING       43
#define Ints_REQUIRED_BITS_FOR_ACN_ENCODING        341

#define ERR_ACN_ENCODE_INTS		474  /**/
#define ERR_ACN_ENCODE_INTS_I_A_2		359  /**/
#define ERR_ACN_ENCODE_INTS_I_B_2		369  /**/
#define ERR_ACN_ENCODE_INTS_I_C_2		379  /**/
#define ERR_ACN_ENCODE_INTS_I_D_2		389  /**/
#define ERR_ACN_ENCODE_INTS_I_G_2		399  /**/
#define ERR_ACN_ENCODE_INTS_I_I_2		409  /**/
#define ERR_ACN_ENCODE_INTS_I_J_2		419  /**/
#define ERR_ACN_ENCODE_INTS_I_O_2		429  /**/
#define ERR_ACN_ENCODE_INTS_I_P_2		439  /**/
#define ERR_ACN_ENCODE_INTS_I_Q_2		449  /**/
#define ERR_ACN_ENCODE_INTS_I_T_2		459  /**/
#define ERR_ACN_ENCODE_INTS_I_U_2		469  /**/

flag Ints_ACN_Encode(const Ints* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_INTS		475  /**/
#define ERR_ACN_DECODE_INTS_I_A_2		360  /**/
#define ERR_ACN_DECODE_INTS_I_B_2		370  /**/
#define ERR_ACN_DECODE_INTS_I_C_2		380  /**/
#define ERR_ACN_DECODE_INTS_I_D_2		390  /**/
#define ERR_ACN_DECODE_INTS_I_G_2		400  /**/
#define ERR_ACN_DECODE_INTS_I_I_2		410  /**/
#define ERR_ACN_DECODE_INTS_I_J_2		420  /**/
#define ERR_ACN_DECODE_INTS_I_O_2		430  /**/
#define ERR_ACN_DECODE_INTS_I_P_2		440  /**/
#define ERR_ACN_DECODE_INTS_I_Q_2		450  /**/
#define ERR_ACN_DECODE_INTS_I_T_2		460  /**/
#define ERR_ACN_DECODE_INTS_I_U_2		470  /**/
flag Ints_ACN_Decode(Ints* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1Real R32;


flag R32_Equal(const R32* pVal1, const R32* pVal2);

#define ERR_R32		476  /**/
flag R32_IsConstraintValid(const R32* pVal, int* pErrCode);

void R32_Initialize(R32* pVal);

#define R32_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define R32_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_R32		479  /**/

flag R32_ACN_Encode(const R32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_R32		480  /**/
flag R32_ACN_Decode(R32* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1Real R64;


flag R64_Equal(const R64* pVal1, const R64* pVal2);

#define ERR_R64		481  /**/
flag R64_IsConstraintValid(const R64* pVal, int* pErrCode);

void R64_Initialize(R64* pVal);

#define R64_REQUIRED_BYTES_FOR_ACN_ENCODING       8
#define R64_REQUIRED_BITS_FOR_ACN_ENCODING        64

#define ERR_ACN_ENCODE_R64		484  /**/

flag R64_ACN_Encode(const R64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_R64		485  /**/
flag R64_ACN_Decode(R64* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1Real R64L;


flag R64L_Equal(const R64L* pVal1, const R64L* pVal2);

#define ERR_R64L		486  /**/
flag R64L_IsConstraintValid(const R64L* pVal, int* pErrCode);

void R64L_Initialize(R64L* pVal);

#define R64L_REQUIRED_BYTES_FOR_ACN_ENCODING       8
#define R64L_REQUIRED_BITS_FOR_ACN_ENCODING        64

#define ERR_ACN_ENCODE_R64L		489  /**/

flag R64L_ACN_Encode(const R64L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_R64L		490  /**/
flag R64L_ACN_Decode(R64L* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1Real R32L;


flag R32L_Equal(const R32L* pVal1, const R32L* pVal2);

#define ERR_R32L		491  /**/
flag R32L_IsConstraintValid(const R32L* pVal, int* pErrCode);

void R32L_Initialize(R32L* pVal);

#define R32L_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define R32L_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_R32L		494  /**/

flag R32L_ACN_Encode(const R32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_R32L		495  /**/
flag R32L_ACN_Decode(R32L* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1Real RU;


flag RU_Equal(const RU* pVal1, const RU* pVal2);

#define ERR_RU		496  /**/
flag RU_IsConstraintValid(const RU* pVal, int* pErrCode);

void RU_Initialize(RU* pVal);

#define RU_REQUIRED_BYTES_FOR_ACN_ENCODING       13
#define RU_REQUIRED_BITS_FOR_ACN_ENCODING        104

#define ERR_ACN_ENCODE_RU		499  /**/

flag RU_ACN_Encode(const RU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_RU		500  /**/
flag RU_ACN_Decode(RU* pVal, BitStream* pBitStrm, int* pErrCode);
typedef flag B1;


flag B1_Equal(const B1* pVal1, const B1* pVal2);

#define ERR_B1		501  /**/
flag B1_IsConstraintValid(const B1* pVal, int* pErrCode);

void B1_Initialize(B1* pVal);

#define B1_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define B1_REQUIRED_BITS_FOR_ACN_ENCODING        1

#define ERR_ACN_ENCODE_B1		504  /**/

flag B1_ACN_Encode(const B1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_B1		505  /**/
flag B1_ACN_Decode(B1* pVal, BitStream* pBitStrm, int* pErrCode);
typedef flag BT;


flag BT_Equal(const BT* pVal1, const BT* pVal2);

#define ERR_BT		506  /**/
flag BT_IsConstraintValid(const BT* pVal, int* pErrCode);

void BT_Initialize(BT* pVal);

#define BT_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define BT_REQUIRED_BITS_FOR_ACN_ENCODING        4

#define ERR_ACN_ENCODE_BT		509  /**/

flag BT_ACN_Encode(const BT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_BT		510  /**/
flag BT_ACN_Decode(BT* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnQ --------------------------------------------*/
typedef struct {
    unsigned long c:1;
} CnQ_exist;
typedef struct {
    P5 a;
    BT b;
    P32 c;

    CnQ_exist exist;

} CnQ;

flag CnQ_Equal(const CnQ* pVal1, const CnQ* pVal2);

#define ERR_CNQ		541  /**/
#define ERR_CNQ_A_2		516  /**/
#define ERR_CNQ_B_2		526  /**/
#define ERR_CNQ_C_2		536  /**/
flag CnQ_IsConstraintValid(const CnQ* pVal, int* pErrCode);

void CnQ_Initialize(CnQ* pVal);

#define CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING       6
#define CnQ_REQUIRED_BITS_FOR_ACN_ENCODING        42

#define ERR_ACN_ENCODE_CNQ		544  /**/
#define ERR_ACN_ENCODE_CNQ_A_2		519  /**/
#define ERR_ACN_ENCODE_CNQ_B_2		529  /**/
#define ERR_ACN_ENCODE_CNQ_C_2		539  /**/

flag CnQ_ACN_Encode(const CnQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CNQ		545  /**/
#define ERR_ACN_DECODE_CNQ_A_2		520  /**/
#define ERR_ACN_DECODE_CNQ_B_2		530  /**/
#define ERR_ACN_DECODE_CNQ_C_2		540  /**/
flag CnQ_ACN_Decode(CnQ* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnO --------------------------------------------*/
typedef asn1SccUint CnO_p;

typedef asn1SccUint CnO_t;

typedef struct {
    CnO_p p;
    CnQ c;
    CnO_t t;

} CnO;

flag CnO_p_Equal(const CnO_p* pVal1, const CnO_p* pVal2);

flag CnO_t_Equal(const CnO_t* pVal1, const CnO_t* pVal2);

flag CnO_Equal(const CnO* pVal1, const CnO* pVal2);

#define ERR_CNO_P		546  /*(0..7)*/
flag CnO_p_IsConstraintValid(const CnO_p* pVal, int* pErrCode);

#define ERR_CNO_T		591  /*(0..31)*/
flag CnO_t_IsConstraintValid(const CnO_t* pVal, int* pErrCode);

#define ERR_CNO		596  /**/
#define ERR_CNO_C_2		586  /**/
flag CnO_IsConstraintValid(const CnO* pVal, int* pErrCode);

void CnO_p_Initialize(CnO_p* pVal);
void CnO_t_Initialize(CnO_t* pVal);
void CnO_Initialize(CnO* pVal);

#define CnO_REQUIRED_BYTES_FOR_ACN_ENCODING       8
#define CnO_REQUIRED_BITS_FOR_ACN_ENCODING        59

#define ERR_ACN_ENCODE_CNO		599  /**/
#define ERR_ACN_ENCODE_CNO_P		549  /**/
#define ERR_ACN_ENCODE_CNO_C_2		589  /**/
#define ERR_ACN_ENCODE_CNO_T		594  /**/

flag CnO_ACN_Encode(const CnO* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CNO		600  /**/
#define ERR_ACN_DECODE_CNO_P		550  /**/
#define ERR_ACN_DECODE_CNO_C_2		590  /**/
#define ERR_ACN_DECODE_CNO_T		595  /**/
flag CnO_ACN_Decode(CnO* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnB --------------------------------------------*/
typedef asn1SccUint CnB_p;

typedef asn1SccUint CnB_t;

typedef struct {
    CnB_p p;
    CnQ c;
    CnB_t t;

} CnB;

flag CnB_p_Equal(const CnB_p* pVal1, const CnB_p* pVal2);

flag CnB_t_Equal(const CnB_t* pVal1, const CnB_t* pVal2);

flag CnB_Equal(const CnB* pVal1, const CnB* pVal2);

#define ERR_CNB_P		601  /*(0..7)*/
flag CnB_p_IsConstraintValid(const CnB_p* pVal, int* pErrCode);

#define ERR_CNB_T		646  /*(0..31)*/
flag CnB_t_IsConstraintValid(const CnB_t* pVal, int* pErrCode);

#define ERR_CNB		651  /**/
#define ERR_CNB_C_2		641  /**/
flag CnB_IsConstraintValid(const CnB* pVal, int* pErrCode);

void CnB_p_Initialize(CnB_p* pVal);
void CnB_t_Initialize(CnB_t* pVal);
void CnB_Initialize(CnB* pVal);

#define CnB_REQUIRED_BYTES_FOR_ACN_ENCODING       7
#define CnB_REQUIRED_BITS_FOR_ACN_ENCODING        56

#define ERR_ACN_ENCODE_CNB		654  /**/
#define ERR_ACN_ENCODE_CNB_P		604  /**/
#define ERR_ACN_ENCODE_CNB_C_2		644  /**/
#define ERR_ACN_ENCODE_CNB_T		649  /**/

flag CnB_ACN_Encode(const CnB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CNB		655  /**/
#define ERR_ACN_DECODE_CNB_P		605  /**/
#define ERR_ACN_DECODE_CNB_C_2		645  /**/
#define ERR_ACN_DECODE_CNB_T		650  /**/
flag CnB_ACN_Decode(CnB* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnN --------------------------------------------*/
typedef asn1SccUint CnN_p;



typedef struct {
    int nCount;
    CnB arr[3];
} CnN_d;
typedef struct {
    CnN_p p;
    CnO c;
    CnN_d d;

} CnN;

flag CnN_p_Equal(const CnN_p* pVal1, const CnN_p* pVal2);

flag CnN_d_Equal(const CnN_d* pVal1, const CnN_d* pVal2);

flag CnN_Equal(const CnN* pVal1, const CnN* pVal2);

#define ERR_CNN_P		656  /*(0..7)*/
flag CnN_p_IsConstraintValid(const CnN_p* pVal, int* pErrCode);

#define ERR_CNN_D		726  /*(SIZE(0..3))*/
#define ERR_CNN_D_ELM		721  /**/
flag CnN_d_IsConstraintValid(const CnN_d* pVal, int* pErrCode);

#define ERR_CNN		731  /**/
#define ERR_CNN_C_2		716  /**/
flag CnN_IsConstraintValid(const CnN* pVal, int* pErrCode);

void CnN_p_Initialize(CnN_p* pVal);
void CnN_d_Initialize(CnN_d* pVal);
void CnN_Initialize(CnN* pVal);

#define CnN_REQUIRED_BYTES_FOR_ACN_ENCODING       30
#define CnN_REQUIRED_BITS_FOR_ACN_ENCODING        240

#define ERR_ACN_ENCODE_CNN		734  /**/
#define ERR_ACN_ENCODE_CNN_P		659  /**/
#define ERR_ACN_ENCODE_CNN_C_2		719  /**/
#define ERR_ACN_ENCODE_CNN_D		729  /**/
#define ERR_ACN_ENCODE_CNN_D_ELM		724  /**/

flag CnN_ACN_Encode(const CnN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CNN		735  /**/
#define ERR_ACN_DECODE_CNN_P		660  /**/
#define ERR_ACN_DECODE_CNN_C_2		720  /**/
#define ERR_ACN_DECODE_CNN_D		730  /**/
#define ERR_ACN_DECODE_CNN_D_ELM		725  /**/
flag CnN_ACN_Decode(CnN* pVal, BitStream* pBitStrm, int* pErrCode);
typedef flag BF;


flag BF_Equal(const BF* pVal1, const BF* pVal2);

#define ERR_BF		736  /**/
flag BF_IsConstraintValid(const BF* pVal, int* pErrCode);

void BF_Initialize(BF* pVal);

#define BF_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define BF_REQUIRED_BITS_FOR_ACN_ENCODING        9

#define ERR_ACN_ENCODE_BF		739  /**/

flag BF_ACN_Encode(const BF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_BF		740  /**/
flag BF_ACN_Decode(BF* pVal, BitStream* pBitStrm, int* pErrCode);
typedef flag BTF;


flag BTF_Equal(const BTF* pVal1, const BTF* pVal2);

#define ERR_BTF		741  /**/
flag BTF_IsConstraintValid(const BTF* pVal, int* pErrCode);

void BTF_Initialize(BTF* pVal);

#define BTF_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define BTF_REQUIRED_BITS_FOR_ACN_ENCODING        11

#define ERR_ACN_ENCODE_BTF		744  /**/

flag BTF_ACN_Encode(const BTF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_BTF		745  /**/
flag BTF_ACN_Decode(BTF* pVal, BitStream* pBitStrm, int* pErrCode);
typedef NullType N0;


flag N0_Equal(const N0* pVal1, const N0* pVal2);

void N0_Initialize(N0* pVal);

#define N0_REQUIRED_BYTES_FOR_ACN_ENCODING       0
#define N0_REQUIRED_BITS_FOR_ACN_ENCODING        0


flag N0_ACN_Encode(const N0* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

flag N0_ACN_Decode(N0* pVal, BitStream* pBitStrm, int* pErrCode);
typedef NullType NP;


flag NP_Equal(const NP* pVal1, const NP* pVal2);

void NP_Initialize(NP* pVal);

#define NP_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define NP_REQUIRED_BITS_FOR_ACN_ENCODING        13

#define ERR_ACN_ENCODE_NP		752  /**/

flag NP_ACN_Encode(const NP* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_NP		753  /**/
flag NP_ACN_Decode(NP* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    e1 = 1,
    e2 = 20,
    e3 = 300
} En;

// please use the following macros to avoid breaking code.
#define En_e1 e1
#define En_e2 e2
#define En_e3 e3

flag En_Equal(const En* pVal1, const En* pVal2);

#define ERR_EN		754  /*e1 | e2 | e3*/
flag En_IsConstraintValid(const En* pVal, int* pErrCode);

void En_Initialize(En* pVal);

#define En_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define En_REQUIRED_BITS_FOR_ACN_ENCODING        2

#define ERR_ACN_ENCODE_EN		757  /**/

flag En_ACN_Encode(const En* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_EN		758  /**/
flag En_ACN_Decode(En* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    v1 = 0,
    v2 = 1,
    v3 = 2
} EnV;

// please use the following macros to avoid breaking code.
#define EnV_v1 v1
#define EnV_v2 v2
#define EnV_v3 v3

flag EnV_Equal(const EnV* pVal1, const EnV* pVal2);

#define ERR_ENV		759  /*v1 | v2 | v3*/
flag EnV_IsConstraintValid(const EnV* pVal, int* pErrCode);

void EnV_Initialize(EnV* pVal);

#define EnV_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define EnV_REQUIRED_BITS_FOR_ACN_ENCODING        8

#define ERR_ACN_ENCODE_ENV		762  /**/

flag EnV_ACN_Encode(const EnV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ENV		763  /**/
flag EnV_ACN_Decode(EnV* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    int nCount;
    EnV arr[4];
} ASoE;

flag ASoE_Equal(const ASoE* pVal1, const ASoE* pVal2);

#define ERR_ASOE		774  /*(SIZE(1..4))*/
#define ERR_ASOE_ELM_2		769  /**/
flag ASoE_IsConstraintValid(const ASoE* pVal, int* pErrCode);

void ASoE_Initialize(ASoE* pVal);

#define ASoE_REQUIRED_BYTES_FOR_ACN_ENCODING       5
#define ASoE_REQUIRED_BITS_FOR_ACN_ENCODING        34

#define ERR_ACN_ENCODE_ASOE		777  /**/
#define ERR_ACN_ENCODE_ASOE_ELM_2		772  /**/

flag ASoE_ACN_Encode(const ASoE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ASOE		778  /**/
#define ERR_ACN_DECODE_ASOE_ELM_2		773  /**/
flag ASoE_ACN_Decode(ASoE* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    ew_a = -5,
    ew_b = 0,
    ew_c = 7000
} EnW;

// please use the following macros to avoid breaking code.
#define EnW_ew_a ew_a
#define EnW_ew_b ew_b
#define EnW_ew_c ew_c

flag EnW_Equal(const EnW* pVal1, const EnW* pVal2);

#define ERR_ENW		779  /*ew-a | ew-b | ew-c*/
flag EnW_IsConstraintValid(const EnW* pVal, int* pErrCode);

void EnW_Initialize(EnW* pVal);

#define EnW_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define EnW_REQUIRED_BITS_FOR_ACN_ENCODING        16

#define ERR_ACN_ENCODE_ENW		782  /**/

flag EnW_ACN_Encode(const EnW* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ENW		783  /**/
flag EnW_ACN_Decode(EnW* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    k2 = -2,
    k5 = 3,
    k3 = 4,
    k1 = 9,
    k4 = 100
} EnJ;

// please use the following macros to avoid breaking code.
#define EnJ_k2 k2
#define EnJ_k5 k5
#define EnJ_k3 k3
#define EnJ_k1 k1
#define EnJ_k4 k4

flag EnJ_Equal(const EnJ* pVal1, const EnJ* pVal2);

#define ERR_ENJ		784  /*k1 | k2 | k3 | k4 | k5*/
flag EnJ_IsConstraintValid(const EnJ* pVal, int* pErrCode);

void EnJ_Initialize(EnJ* pVal);

#define EnJ_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define EnJ_REQUIRED_BITS_FOR_ACN_ENCODING        3

#define ERR_ACN_ENCODE_ENJ		787  /**/

flag EnJ_ACN_Encode(const EnJ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ENJ		788  /**/
flag EnJ_ACN_Decode(EnJ* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    l2 = -2,
    l3 = 4,
    l1 = 9
} EnK;

// please use the following macros to avoid breaking code.
#define EnK_l2 l2
#define EnK_l3 l3
#define EnK_l1 l1

flag EnK_Equal(const EnK* pVal1, const EnK* pVal2);

#define ERR_ENK		789  /*l1 | l2 | l3*/
flag EnK_IsConstraintValid(const EnK* pVal, int* pErrCode);

void EnK_Initialize(EnK* pVal);

#define EnK_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define EnK_REQUIRED_BITS_FOR_ACN_ENCODING        8

#define ERR_ACN_ENCODE_ENK		792  /**/

flag EnK_ACN_Encode(const EnK* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ENK		793  /**/
flag EnK_ACN_Decode(EnK* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Oths --------------------------------------------*/
typedef struct {
    R32 o_a;
    R64 o_b;
    R64L o_c;
    RU o_d;
    BT o_e;
    BTF o_f;
    NP o_g;
    En o_h;
    EnV o_i;
    EnW o_j;
    BF o_k;
    R32L o_l;
    EnJ o_m;
    EnK o_n;

} Oths;

flag Oths_Equal(const Oths* pVal1, const Oths* pVal2);

#define ERR_OTHS		933  /**/
#define ERR_OTHS_O_A_2		799  /**/
#define ERR_OTHS_O_B_2		809  /**/
#define ERR_OTHS_O_C_2		819  /**/
#define ERR_OTHS_O_D_2		829  /**/
#define ERR_OTHS_O_E_2		839  /**/
#define ERR_OTHS_O_F_2		849  /**/
#define ERR_OTHS_O_G		858  /**/
#define ERR_OTHS_O_H_2		868  /**/
#define ERR_OTHS_O_I_2		878  /**/
#define ERR_OTHS_O_J_2		888  /**/
#define ERR_OTHS_O_K_2		898  /**/
#define ERR_OTHS_O_L_2		908  /**/
#define ERR_OTHS_O_M_2		918  /**/
#define ERR_OTHS_O_N_2		928  /**/
flag Oths_IsConstraintValid(const Oths* pVal, int* pErrCode);

void Oths_Initialize(Oths* pVal);

#define Oths_REQUIRED_BYTES_FOR_ACN_ENCODING       47
#define Oths_REQUIRED_BITS_FOR_ACN_ENCODING        370

#define ERR_ACN_ENCODE_OTHS		936  /**/
#define ERR_ACN_ENCODE_OTHS_O_A_2		802  /**/
#define ERR_ACN_ENCODE_OTHS_O_B_2		812  /**/
#define ERR_ACN_ENCODE_OTHS_O_C_2		822  /**/
#define ERR_ACN_ENCODE_OTHS_O_D_2		832  /**/
#define ERR_ACN_ENCODE_OTHS_O_E_2		842  /**/
#define ERR_ACN_ENCODE_OTHS_O_F_2		852  /**/
#define ERR_ACN_ENCODE_OTHS_O_G_2		861  /**/
#define ERR_ACN_ENCODE_OTHS_O_H_2		871  /**/
#define ERR_ACN_ENCODE_OTHS_O_I_2		881  /**/
#define ERR_ACN_ENCODE_OTHS_O_J_2		891  /**/
#define ERR_ACN_ENCODE_OTHS_O_K_2		901  /**/
#define ERR_ACN_ENCODE_OTHS_O_L_2		911  /**/
#define ERR_ACN_ENCODE_OTHS_O_M_2		921  /**/
#define ERR_ACN_ENCODE_OTHS_O_N_2		931  /**/

flag Oths_ACN_Encode(const Oths* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_OTHS		937  /**/
#define ERR_ACN_DECODE_OTHS_O_A_2		803  /**/
#define ERR_ACN_DECODE_OTHS_O_B_2		813  /**/
#define ERR_ACN_DECODE_OTHS_O_C_2		823  /**/
#define ERR_ACN_DECODE_OTHS_O_D_2		833  /**/
#define ERR_ACN_DECODE_OTHS_O_E_2		843  /**/
#define ERR_ACN_DECODE_OTHS_O_F_2		853  /**/
#define ERR_ACN_DECODE_OTHS_O_G_2		862  /**/
#define ERR_ACN_DECODE_OTHS_O_H_2		872  /**/
#define ERR_ACN_DECODE_OTHS_O_I_2		882  /**/
#define ERR_ACN_DECODE_OTHS_O_J_2		892  /**/
#define ERR_ACN_DECODE_OTHS_O_K_2		902  /**/
#define ERR_ACN_DECODE_OTHS_O_L_2		912  /**/
#define ERR_ACN_DECODE_OTHS_O_M_2		922  /**/
#define ERR_ACN_DECODE_OTHS_O_N_2		932  /**/
flag Oths_ACN_Decode(Oths* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    byte arr[3];
} OFx;


flag OFx_Equal(const OFx* pVal1, const OFx* pVal2);

#define ERR_OFX		938  /*(SIZE(3))*/
flag OFx_IsConstraintValid(const OFx* pVal, int* pErrCode);

void OFx_Initialize(OFx* pVal);

#define OFx_REQUIRED_BYTES_FOR_ACN_ENCODING       3
#define OFx_REQUIRED_BITS_FOR_ACN_ENCODING        24

#define ERR_ACN_ENCODE_OFX		941  /**/

flag OFx_ACN_Encode(const OFx* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_OFX		942  /**/
flag OFx_ACN_Decode(OFx* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[30];
} OV;


flag OV_Equal(const OV* pVal1, const OV* pVal2);

#define ERR_OV		943  /*(SIZE(0..30))*/
flag OV_IsConstraintValid(const OV* pVal, int* pErrCode);

void OV_Initialize(OV* pVal);

#define OV_REQUIRED_BYTES_FOR_ACN_ENCODING       31
#define OV_REQUIRED_BITS_FOR_ACN_ENCODING        245

#define ERR_ACN_ENCODE_OV		946  /**/

flag OV_ACN_Encode(const OV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_OV		947  /**/
flag OV_ACN_Decode(OV* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DPr --------------------------------------------*/
typedef asn1SccUint DPr_e_x;

typedef struct {
    unsigned long e_a:1;
    unsigned long e_b:1;
    unsigned long e_c:1;
    unsigned long e_d:1;
} DPr_exist;
typedef struct {
    DPr_e_x e_x;
    P16 e_a;
    OV e_b;
    T5 e_c;
    P8 e_d;

    DPr_exist exist;

} DPr;

flag DPr_e_x_Equal(const DPr_e_x* pVal1, const DPr_e_x* pVal2);

flag DPr_Equal(const DPr* pVal1, const DPr* pVal2);

#define ERR_DPR_E_X		950  /*(0..3)*/
flag DPr_e_x_IsConstraintValid(const DPr_e_x* pVal, int* pErrCode);

#define ERR_DPR		993  /**/
#define ERR_DPR_E_A_2		960  /**/
#define ERR_DPR_E_B_2		970  /**/
#define ERR_DPR_E_C_2		978  /**/
#define ERR_DPR_E_D_2		988  /**/
flag DPr_IsConstraintValid(const DPr* pVal, int* pErrCode);

void DPr_e_x_Initialize(DPr_e_x* pVal);
void DPr_Initialize(DPr* pVal);

#define DPr_REQUIRED_BYTES_FOR_ACN_ENCODING       36
#define DPr_REQUIRED_BITS_FOR_ACN_ENCODING        283

#define ERR_ACN_ENCODE_DPR		996  /**/
#define ERR_ACN_ENCODE_DPR_HAS_A_UNINITIALIZED		997  /**/
#define ERR_ACN_ENCODE_DPR_HAS_A		948  /**/
#define ERR_ACN_ENCODE_DPR_E_X		953  /**/
#define ERR_ACN_ENCODE_DPR_E_A		958  /**/
#define ERR_ACN_ENCODE_DPR_HAS_B_UNINITIALIZED		998  /**/
#define ERR_ACN_ENCODE_DPR_HAS_B		963  /**/
#define ERR_ACN_ENCODE_DPR_E_B		968  /**/
#define ERR_ACN_ENCODE_DPR_E_C_2		981  /**/
#define ERR_ACN_ENCODE_DPR_E_D_2		991  /**/

flag DPr_ACN_Encode(const DPr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DPR		999  /**/
#define ERR_ACN_DECODE_DPR_HAS_A		949  /**/
#define ERR_ACN_DECODE_DPR_E_X		954  /**/
#define ERR_ACN_DECODE_DPR_E_A		959  /**/
#define ERR_ACN_DECODE_DPR_HAS_B		964  /**/
#define ERR_ACN_DECODE_DPR_E_B		969  /**/
#define ERR_ACN_DECODE_DPR_E_C_2		982  /**/
#define ERR_ACN_DECODE_DPR_E_D_2		992  /**/
flag DPr_ACN_Decode(DPr* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DPwC --------------------------------------------*/

typedef enum {
    DPwC_NONE,
    w1_PRESENT,
    w2_PRESENT,
    w3_PRESENT
} DPwC_selection;

typedef union {
    P8 w1;
    BT w2;
    OV w3;
} DPwC_unchecked_union;

typedef struct {
    DPwC_selection kind;

    DPwC_unchecked_union u;
} DPwC;

flag DPwC_Equal(const DPwC* pVal1, const DPwC* pVal2);

#define ERR_DPWC		1024  /**/
#define ERR_DPWC_W1_2		1005  /**/
#define ERR_DPWC_W2_2		1013  /**/
#define ERR_DPWC_W3_2		1021  /**/
flag DPwC_IsConstraintValid(const DPwC* pVal, int* pErrCode);

void DPwC_Initialize(DPwC* pVal);

#define DPwC_REQUIRED_BYTES_FOR_ACN_ENCODING       31
#define DPwC_REQUIRED_BITS_FOR_ACN_ENCODING        245
/*-- DPw --------------------------------------------*/
typedef struct {
    flag w_m;
    DPwC w_c;

} DPw;

flag DPw_Equal(const DPw* pVal1, const DPw* pVal2);

#define ERR_DPW		1068  /**/
#define ERR_DPW_W_M		1031  /**/
#define ERR_DPW_W_C_2		1065  /**/
flag DPw_IsConstraintValid(const DPw* pVal, int* pErrCode);

void DPw_Initialize(DPw* pVal);

#define DPw_REQUIRED_BYTES_FOR_ACN_ENCODING       32
#define DPw_REQUIRED_BITS_FOR_ACN_ENCODING        254

#define ERR_ACN_ENCODE_DPW		1071  /**/
#define ERR_ACN_ENCODE_DPW_TAG1_UNINITIALIZED		1072  /**/
#define ERR_ACN_ENCODE_DPW_TAG1		1029  /**/
#define ERR_ACN_ENCODE_DPW_W_M		1034  /**/
#define ERR_ACN_ENCODE_DPW_W_C		1063  /**/
#define ERR_ACN_ENCODE_DPW_W_C_W1		1039  /**/
#define ERR_ACN_ENCODE_DPW_W_C_W2		1047  /**/
#define ERR_ACN_ENCODE_DPW_W_C_W3		1055  /**/

flag DPw_ACN_Encode(const DPw* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DPW		1073  /**/
#define ERR_ACN_DECODE_DPW_TAG1		1030  /**/
#define ERR_ACN_DECODE_DPW_W_M		1035  /**/
#define ERR_ACN_DECODE_DPW_W_C		1064  /**/
#define ERR_ACN_DECODE_DPW_W_C_W1		1040  /**/
#define ERR_ACN_DECODE_DPW_W_C_W2		1048  /**/
#define ERR_ACN_DECODE_DPW_W_C_W3		1056  /**/
flag DPw_ACN_Decode(DPw* pVal, BitStream* pBitStrm, int* pErrCode);

typedef struct {
    byte arr[2];
} BF9;

flag BF9_Equal(const BF9* pVal1, const BF9* pVal2);

#define ERR_BF9		1074  /*(SIZE(9))*/
flag BF9_IsConstraintValid(const BF9* pVal, int* pErrCode);

void BF9_Initialize(BF9* pVal);

#define BF9_REQUIRED_BYTES_FOR_ACN_ENCODING       2
#define BF9_REQUIRED_BITS_FOR_ACN_ENCODING        9

#define ERR_ACN_ENCODE_BF9		1077  /**/

flag BF9_ACN_Encode(const BF9* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_BF9		1078  /**/
flag BF9_ACN_Decode(BF9* pVal, BitStream* pBitStrm, int* pErrCode);

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 40 */
    byte arr[5];
} BV;

flag BV_Equal(const BV* pVal1, const BV* pVal2);

#define ERR_BV		1079  /*(SIZE(1..40))*/
flag BV_IsConstraintValid(const BV* pVal, int* pErrCode);

void BV_Initialize(BV* pVal);

#define BV_REQUIRED_BYTES_FOR_ACN_ENCODING       6
#define BV_REQUIRED_BITS_FOR_ACN_ENCODING        46

#define ERR_ACN_ENCODE_BV		1082  /**/

flag BV_ACN_Encode(const BV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_BV		1083  /**/
flag BV_ACN_Decode(BV* pVal, BitStream* pBitStrm, int* pErrCode);
typedef char SI[13];

flag SI_Equal(const SI pVal1, const SI pVal2);

#define ERR_SI		1084  /*(SIZE(0..12))*/
flag SI_IsConstraintValid(const SI pVal, int* pErrCode);

void SI_Initialize(SI pVal);

#define SI_REQUIRED_BYTES_FOR_ACN_ENCODING       11
#define SI_REQUIRED_BITS_FOR_ACN_ENCODING        88

#define ERR_ACN_ENCODE_SI		1087  /**/

flag SI_ACN_Encode(const SI pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_SI		1088  /**/
flag SI_ACN_Decode(SI pVal, BitStream* pBitStrm, int* pErrCode);
typedef char SA[9];

flag SA_Equal(const SA pVal1, const SA pVal2);

#define ERR_SA		1089  /*(SIZE(3..8))(FROM ("A".."P"))*/
flag SA_IsConstraintValid(const SA pVal, int* pErrCode);

void SA_Initialize(SA pVal);

#define SA_REQUIRED_BYTES_FOR_ACN_ENCODING       5
#define SA_REQUIRED_BITS_FOR_ACN_ENCODING        35

#define ERR_ACN_ENCODE_SA		1092  /**/

flag SA_ACN_Encode(const SA pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_SA		1093  /**/
flag SA_ACN_Decode(SA pVal, BitStream* pBitStrm, int* pErrCode);
typedef char S8[5];

flag S8_Equal(const S8 pVal1, const S8 pVal2);

#define ERR_S8		1094  /*(SIZE(4))*/
flag S8_IsConstraintValid(const S8 pVal, int* pErrCode);

void S8_Initialize(S8 pVal);

#define S8_REQUIRED_BYTES_FOR_ACN_ENCODING       4
#define S8_REQUIRED_BITS_FOR_ACN_ENCODING        32

#define ERR_ACN_ENCODE_S8		1097  /**/

flag S8_ACN_Encode(const S8 pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_S8		1098  /**/
flag S8_ACN_Decode(S8 pVal, BitStream* pBitStrm, int* pErrCode);
typedef char SNT[11];

flag SNT_Equal(const SNT pVal1, const SNT pVal2);

#define ERR_SNT		1099  /*(SIZE(0..10))(FROM ("A".."Z"))*/
flag SNT_IsConstraintValid(const SNT pVal, int* pErrCode);

void SNT_Initialize(SNT pVal);

#define SNT_REQUIRED_BYTES_FOR_ACN_ENCODING       11
#define SNT_REQUIRED_BITS_FOR_ACN_ENCODING        88

#define ERR_ACN_ENCODE_SNT		1102  /**/

flag SNT_ACN_Encode(const SNT pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_SNT		1103  /**/
flag SNT_ACN_Decode(SNT pVal, BitStream* pBitStrm, int* pErrCode);
/*-- AChc --------------------------------------------*/

typedef enum {
    AChc_NONE,
    ca_PRESENT,
    cb_PRESENT,
    cc_PRESENT,
    cd_PRESENT
} AChc_selection;

typedef union {
    P8 ca;
    BT cb;
    OV cc;
    SNT cd;
} AChc_unchecked_union;

typedef struct {
    AChc_selection kind;

    AChc_unchecked_union u;
} AChc;

flag AChc_Equal(const AChc* pVal1, const AChc* pVal2);

#define ERR_ACHC		1144  /**/
#define ERR_ACHC_CA_2		1109  /**/
#define ERR_ACHC_CB_2		1119  /**/
#define ERR_ACHC_CC_2		1129  /**/
#define ERR_ACHC_CD_2		1139  /**/
flag AChc_IsConstraintValid(const AChc* pVal, int* pErrCode);

void AChc_Initialize(AChc* pVal);

#define AChc_REQUIRED_BYTES_FOR_ACN_ENCODING       31
#define AChc_REQUIRED_BITS_FOR_ACN_ENCODING        247

#define ERR_ACN_ENCODE_ACHC		1147  /**/
#define ERR_ACN_ENCODE_ACHC_CA_2		1112  /**/
#define ERR_ACN_ENCODE_ACHC_CB_2		1122  /**/
#define ERR_ACN_ENCODE_ACHC_CC_2		1132  /**/
#define ERR_ACN_ENCODE_ACHC_CD_2		1142  /**/

flag AChc_ACN_Encode(const AChc* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ACHC		1148  /**/
#define ERR_ACN_DECODE_ACHC_CA_2		1113  /**/
#define ERR_ACN_DECODE_ACHC_CB_2		1123  /**/
#define ERR_ACN_DECODE_ACHC_CC_2		1133  /**/
#define ERR_ACN_DECODE_ACHC_CD_2		1143  /**/
flag AChc_ACN_Decode(AChc* pVal, BitStream* pBitStrm, int* pErrCode);
typedef char SNM[11];

flag SNM_Equal(const SNM pVal1, const SNM pVal2);

#define ERR_SNM		1149  /*(SIZE(1..10))(FROM ("A".."Z"))*/
flag SNM_IsConstraintValid(const SNM pVal, int* pErrCode);

void SNM_Initialize(SNM pVal);

#define SNM_REQUIRED_BYTES_FOR_ACN_ENCODING       12
#define SNM_REQUIRED_BITS_FOR_ACN_ENCODING        96

#define ERR_ACN_ENCODE_SNM		1152  /**/

flag SNM_ACN_Encode(const SNM pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_SNM		1153  /**/
flag SNM_ACN_Decode(SNM pVal, BitStream* pBitStrm, int* pErrCode);

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 20 */
    byte arr[3];
} BNT;

flag BNT_Equal(const BNT* pVal1, const BNT* pVal2);

#define ERR_BNT		1154  /*(SIZE(1..20))*/
flag BNT_IsConstraintValid(const BNT* pVal, int* pErrCode);

void BNT_Initialize(BNT* pVal);

#define BNT_REQUIRED_BYTES_FOR_ACN_ENCODING       5
#define BNT_REQUIRED_BITS_FOR_ACN_ENCODING        36

#define ERR_ACN_ENCODE_BNT		1157  /**/

flag BNT_ACN_Encode(const BNT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_BNT		1158  /**/
flag BNT_ACN_Decode(BNT* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Strs --------------------------------------------*/
typedef struct {
    SI s_a;
    SNT s_b;
    SNM s_c;
    S8 s_d;
    BNT s_e;
    SA s_f;
    OFx s_g;
    BV s_h;
    BF9 s_i;

} Strs;

flag Strs_Equal(const Strs* pVal1, const Strs* pVal2);

#define ERR_STRS		1249  /**/
#define ERR_STRS_S_A_2		1164  /**/
#define ERR_STRS_S_B_2		1174  /**/
#define ERR_STRS_S_C_2		1184  /**/
#define ERR_STRS_S_D_2		1194  /**/
#define ERR_STRS_S_E_2		1204  /**/
#define ERR_STRS_S_F_2		1214  /**/
#define ERR_STRS_S_G_2		1224  /**/
#define ERR_STRS_S_H_2		1234  /**/
#define ERR_STRS_S_I_2		1244  /**/
flag Strs_IsConstraintValid(const Strs* pVal, int* pErrCode);

void Strs_Initialize(Strs* pVal);

#define Strs_REQUIRED_BYTES_FOR_ACN_ENCODING       57
#define Strs_REQUIRED_BITS_FOR_ACN_ENCODING        454

#define ERR_ACN_ENCODE_STRS		1252  /**/
#define ERR_ACN_ENCODE_STRS_S_A_2		1167  /**/
#define ERR_ACN_ENCODE_STRS_S_B_2		1177  /**/
#define ERR_ACN_ENCODE_STRS_S_C_2		1187  /**/
#define ERR_ACN_ENCODE_STRS_S_D_2		1197  /**/
#define ERR_ACN_ENCODE_STRS_S_E_2		1207  /**/
#define ERR_ACN_ENCODE_STRS_S_F_2		1217  /**/
#define ERR_ACN_ENCODE_STRS_S_G_2		1227  /**/
#define ERR_ACN_ENCODE_STRS_S_H_2		1237  /**/
#define ERR_ACN_ENCODE_STRS_S_I_2		1247  /**/

flag Strs_ACN_Encode(const Strs* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_STRS		1253  /**/
#define ERR_ACN_DECODE_STRS_S_A_2		1168  /**/
#define ERR_ACN_DECODE_STRS_S_B_2		1178  /**/
#define ERR_ACN_DECODE_STRS_S_C_2		1188  /**/
#define ERR_ACN_DECODE_STRS_S_D_2		1198  /**/
#define ERR_ACN_DECODE_STRS_S_E_2		1208  /**/
#define ERR_ACN_DECODE_STRS_S_F_2		1218  /**/
#define ERR_ACN_DECODE_STRS_S_G_2		1228  /**/
#define ERR_ACN_DECODE_STRS_S_H_2		1238  /**/
#define ERR_ACN_DECODE_STRS_S_I_2		1248  /**/
flag Strs_ACN_Decode(Strs* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[9];
} ONT;


flag ONT_Equal(const ONT* pVal1, const ONT* pVal2);

#define ERR_ONT		1254  /*(SIZE(1..9))*/
flag ONT_IsConstraintValid(const ONT* pVal, int* pErrCode);

void ONT_Initialize(ONT* pVal);

#define ONT_REQUIRED_BYTES_FOR_ACN_ENCODING       11
#define ONT_REQUIRED_BITS_FOR_ACN_ENCODING        88

#define ERR_ACN_ENCODE_ONT		1257  /**/

flag ONT_ACN_Encode(const ONT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ONT		1258  /**/
flag ONT_ACN_Decode(ONT* pVal, BitStream* pBitStrm, int* pErrCode);

typedef asn1SccUint QNT_elem;


typedef struct {
    int nCount;
    QNT_elem arr[9];
} QNT;

flag QNT_elem_Equal(const QNT_elem* pVal1, const QNT_elem* pVal2);

flag QNT_Equal(const QNT* pVal1, const QNT* pVal2);

#define ERR_QNT_ELM		1259  /*(0..200)*/
flag QNT_elem_IsConstraintValid(const QNT_elem* pVal, int* pErrCode);

#define ERR_QNT		1264  /*(SIZE(2..9))*/
flag QNT_IsConstraintValid(const QNT* pVal, int* pErrCode);

void QNT_elem_Initialize(QNT_elem* pVal);
void QNT_Initialize(QNT* pVal);

#define QNT_REQUIRED_BYTES_FOR_ACN_ENCODING       11
#define QNT_REQUIRED_BITS_FOR_ACN_ENCODING        88

#define ERR_ACN_ENCODE_QNT		1267  /**/
#define ERR_ACN_ENCODE_QNT_ELM		1262  /**/

flag QNT_ACN_Encode(const QNT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_QNT		1268  /**/
#define ERR_ACN_DECODE_QNT_ELM		1263  /**/
flag QNT_ACN_Decode(QNT* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Algn --------------------------------------------*/
typedef asn1SccUint Algn_a_a;

typedef asn1SccUint Algn_a_b;

typedef asn1SccUint Algn_a_c;

typedef asn1SccUint Algn_a_d;

typedef asn1SccSint Algn_a_f;

typedef struct {
    int nCount;
    byte arr[5];
} Algn_a_g;

typedef asn1SccUint Algn_a_h;

typedef struct {
    Algn_a_a a_a;
    Algn_a_b a_b;
    Algn_a_c a_c;
    Algn_a_d a_d;
    flag a_e;
    Algn_a_f a_f;
    Algn_a_g a_g;
    Algn_a_h a_h;

} Algn;

flag Algn_a_a_Equal(const Algn_a_a* pVal1, const Algn_a_a* pVal2);

flag Algn_a_b_Equal(const Algn_a_b* pVal1, const Algn_a_b* pVal2);

flag Algn_a_c_Equal(const Algn_a_c* pVal1, const Algn_a_c* pVal2);

flag Algn_a_d_Equal(const Algn_a_d* pVal1, const Algn_a_d* pVal2);

flag Algn_a_f_Equal(const Algn_a_f* pVal1, const Algn_a_f* pVal2);

flag Algn_a_g_Equal(const Algn_a_g* pVal1, const Algn_a_g* pVal2);

flag Algn_a_h_Equal(const Algn_a_h* pVal1, const Algn_a_h* pVal2);

flag Algn_Equal(const Algn* pVal1, const Algn* pVal2);

#define ERR_ALGN_A_A		1269  /*(0..7)*/
flag Algn_a_a_IsConstraintValid(const Algn_a_a* pVal, int* pErrCode);

#define ERR_ALGN_A_B		1274  /*(0..255)*/
flag Algn_a_b_IsConstraintValid(const Algn_a_b* pVal, int* pErrCode);

#define ERR_ALGN_A_C		1279  /*(0..3)*/
flag Algn_a_c_IsConstraintValid(const Algn_a_c* pVal, int* pErrCode);

#define ERR_ALGN_A_D		1284  /*(0..65535)*/
flag Algn_a_d_IsConstraintValid(const Algn_a_d* pVal, int* pErrCode);

#define ERR_ALGN_A_F		1294  /*(-9..9)*/
flag Algn_a_f_IsConstraintValid(const Algn_a_f* pVal, int* pErrCode);

#define ERR_ALGN_A_G		1299  /*(SIZE(0..5))*/
flag Algn_a_g_IsConstraintValid(const Algn_a_g* pVal, int* pErrCode);

#define ERR_ALGN_A_H		1304  /*(0..1)*/
flag Algn_a_h_IsConstraintValid(const Algn_a_h* pVal, int* pErrCode);

#define ERR_ALGN		1309  /**/
#define ERR_ALGN_A_E		1289  /**/
flag Algn_IsConstraintValid(const Algn* pVal, int* pErrCode);

void Algn_a_a_Initialize(Algn_a_a* pVal);
void Algn_a_b_Initialize(Algn_a_b* pVal);
void Algn_a_c_Initialize(Algn_a_c* pVal);
void Algn_a_d_Initialize(Algn_a_d* pVal);
void Algn_a_f_Initialize(Algn_a_f* pVal);
void Algn_a_g_Initialize(Algn_a_g* pVal);
void Algn_a_h_Initialize(Algn_a_h* pVal);
void Algn_Initialize(Algn* pVal);

#define Algn_REQUIRED_BYTES_FOR_ACN_ENCODING       19
#define Algn_REQUIRED_BITS_FOR_ACN_ENCODING        147

#define ERR_ACN_ENCODE_ALGN		1312  /**/
#define ERR_ACN_ENCODE_ALGN_A_A		1272  /**/
#define ERR_ACN_ENCODE_ALGN_A_B		1277  /**/
#define ERR_ACN_ENCODE_ALGN_A_C		1282  /**/
#define ERR_ACN_ENCODE_ALGN_A_D		1287  /**/
#define ERR_ACN_ENCODE_ALGN_A_E		1292  /**/
#define ERR_ACN_ENCODE_ALGN_A_F		1297  /**/
#define ERR_ACN_ENCODE_ALGN_A_G		1302  /**/
#define ERR_ACN_ENCODE_ALGN_A_H		1307  /**/

flag Algn_ACN_Encode(const Algn* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_ALGN		1313  /**/
#define ERR_ACN_DECODE_ALGN_A_A		1273  /**/
#define ERR_ACN_DECODE_ALGN_A_B		1278  /**/
#define ERR_ACN_DECODE_ALGN_A_C		1283  /**/
#define ERR_ACN_DECODE_ALGN_A_D		1288  /**/
#define ERR_ACN_DECODE_ALGN_A_E		1293  /**/
#define ERR_ACN_DECODE_ALGN_A_F		1298  /**/
#define ERR_ACN_DECODE_ALGN_A_G		1303  /**/
#define ERR_ACN_DECODE_ALGN_A_H		1308  /**/
flag Algn_ACN_Decode(Algn* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    ChE_al_a = 0,
    ChE_al_b = 1,
    ChE_al_c = 2
} ChE;

// please use the following macros to avoid breaking code.
#define ChE_al_a ChE_al_a
#define ChE_al_b ChE_al_b
#define ChE_al_c ChE_al_c

flag ChE_Equal(const ChE* pVal1, const ChE* pVal2);

#define ERR_CHE		1314  /*al-a | al-b | al-c*/
flag ChE_IsConstraintValid(const ChE* pVal, int* pErrCode);

void ChE_Initialize(ChE* pVal);

#define ChE_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define ChE_REQUIRED_BITS_FOR_ACN_ENCODING        2

#define ERR_ACN_ENCODE_CHE		1317  /**/

flag ChE_ACN_Encode(const ChE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CHE		1318  /**/
flag ChE_ACN_Decode(ChE* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    ChEV_al_a = 0,
    ChEV_al_b = 1,
    ChEV_al_c = 2
} ChEV;

// please use the following macros to avoid breaking code.
#define ChEV_al_a ChEV_al_a
#define ChEV_al_b ChEV_al_b
#define ChEV_al_c ChEV_al_c

flag ChEV_Equal(const ChEV* pVal1, const ChEV* pVal2);

#define ERR_CHEV		1319  /*al-a | al-b | al-c*/
flag ChEV_IsConstraintValid(const ChEV* pVal, int* pErrCode);

void ChEV_Initialize(ChEV* pVal);

#define ChEV_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define ChEV_REQUIRED_BITS_FOR_ACN_ENCODING        8

#define ERR_ACN_ENCODE_CHEV		1322  /**/

flag ChEV_ACN_Encode(const ChEV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_CHEV		1323  /**/
flag ChEV_ACN_Decode(ChEV* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- DChC --------------------------------------------*/

typedef enum {
    DChC_NONE,
    al_a_PRESENT,
    al_b_PRESENT,
    al_c_PRESENT
} DChC_selection;

typedef union {
    P8 al_a;
    OV al_b;
    ASo al_c;
} DChC_unchecked_union;

typedef struct {
    DChC_selection kind;

    DChC_unchecked_union u;
} DChC;

flag DChC_Equal(const DChC* pVal1, const DChC* pVal2);

#define ERR_DCHC		1349  /**/
#define ERR_DCHC_AL_A_2		1329  /**/
#define ERR_DCHC_AL_B_2		1339  /**/
#define ERR_DCHC_AL_C		1344  /**/
flag DChC_IsConstraintValid(const DChC* pVal, int* pErrCode);

void DChC_Initialize(DChC* pVal);

#define DChC_REQUIRED_BYTES_FOR_ACN_ENCODING       31
#define DChC_REQUIRED_BITS_FOR_ACN_ENCODING        245
/*-- DCh --------------------------------------------*/
typedef asn1SccUint DCh_g_m;

typedef struct {
    DCh_g_m g_m;
    DChC g_c;

} DCh;

flag DCh_g_m_Equal(const DCh_g_m* pVal1, const DCh_g_m* pVal2);

flag DCh_Equal(const DCh* pVal1, const DCh* pVal2);

#define ERR_DCH_G_M		1356  /*(0..31)*/
flag DCh_g_m_IsConstraintValid(const DCh_g_m* pVal, int* pErrCode);

#define ERR_DCH		1394  /**/
#define ERR_DCH_G_C_2		1391  /**/
flag DCh_IsConstraintValid(const DCh* pVal, int* pErrCode);

void DCh_g_m_Initialize(DCh_g_m* pVal);
void DCh_Initialize(DCh* pVal);

#define DCh_REQUIRED_BYTES_FOR_ACN_ENCODING       33
#define DCh_REQUIRED_BITS_FOR_ACN_ENCODING        258

#define ERR_ACN_ENCODE_DCH		1397  /**/
#define ERR_ACN_ENCODE_DCH_WHICH_UNINITIALIZED		1398  /**/
#define ERR_ACN_ENCODE_DCH_WHICH		1354  /**/
#define ERR_ACN_ENCODE_DCH_G_M		1359  /**/
#define ERR_ACN_ENCODE_DCH_G_C		1389  /**/
#define ERR_ACN_ENCODE_DCH_G_C_AL_A_2		1369  /**/
#define ERR_ACN_ENCODE_DCH_G_C_AL_B_2		1379  /**/
#define ERR_ACN_ENCODE_DCH_G_C_AL_C		1384  /**/

flag DCh_ACN_Encode(const DCh* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_DCH		1399  /**/
#define ERR_ACN_DECODE_DCH_WHICH		1355  /**/
#define ERR_ACN_DECODE_DCH_G_M		1360  /**/
#define ERR_ACN_DECODE_DCH_G_C		1390  /**/
#define ERR_ACN_DECODE_DCH_G_C_AL_A_2		1370  /**/
#define ERR_ACN_DECODE_DCH_G_C_AL_B_2		1380  /**/
#define ERR_ACN_DECODE_DCH_G_C_AL_C		1385  /**/
flag DCh_ACN_Decode(DCh* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- PHdr --------------------------------------------*/
typedef asn1SccUint PHdr_h_ver;

typedef asn1SccUint PHdr_h_end;

typedef struct {
    PHdr_h_ver h_ver;
    PHdr_h_end h_end;

} PHdr;

flag PHdr_h_ver_Equal(const PHdr_h_ver* pVal1, const PHdr_h_ver* pVal2);

flag PHdr_h_end_Equal(const PHdr_h_end* pVal1, const PHdr_h_end* pVal2);

flag PHdr_Equal(const PHdr* pVal1, const PHdr* pVal2);

#define ERR_PHDR_H_VER		1400  /*(0..7)*/
flag PHdr_h_ver_IsConstraintValid(const PHdr_h_ver* pVal, int* pErrCode);

#define ERR_PHDR_H_END		1405  /*(0..3)*/
flag PHdr_h_end_IsConstraintValid(const PHdr_h_end* pVal, int* pErrCode);

#define ERR_PHDR		1410  /**/
flag PHdr_IsConstraintValid(const PHdr* pVal, int* pErrCode);

void PHdr_h_ver_Initialize(PHdr_h_ver* pVal);
void PHdr_h_end_Initialize(PHdr_h_end* pVal);
void PHdr_Initialize(PHdr* pVal);

#define PHdr_REQUIRED_BYTES_FOR_ACN_ENCODING       1
#define PHdr_REQUIRED_BITS_FOR_ACN_ENCODING        5

#define ERR_ACN_ENCODE_PHDR		1413  /**/
#define ERR_ACN_ENCODE_PHDR_H_VER		1403  /**/
#define ERR_ACN_ENCODE_PHDR_H_END		1408  /**/

flag PHdr_ACN_Encode(const PHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_PHDR		1414  /**/
#define ERR_ACN_DECODE_PHDR_H_VER		1404  /**/
#define ERR_ACN_DECODE_PHDR_H_END		1409  /**/
flag PHdr_ACN_Decode(PHdr* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Pkt --------------------------------------------*/
typedef struct {
    PHdr hdr;
    Body bdy;
    P8 trail;

} Pkt;

flag Pkt_Equal(const Pkt* pVal1, const Pkt* pVal2);

#define ERR_PKT		1473  /**/
#define ERR_PKT_HDR_2		1434  /**/
#define ERR_PKT_BDY_2		1460  /**/
#define ERR_PKT_TRAIL_2		1468  /**/
flag Pkt_IsConstraintValid(const Pkt* pVal, int* pErrCode);

void Pkt_Initialize(Pkt* pVal);

#define Pkt_REQUIRED_BYTES_FOR_ACN_ENCODING       26
#define Pkt_REQUIRED_BITS_FOR_ACN_ENCODING        201

#define ERR_ACN_ENCODE_PKT		1476  /**/
#define ERR_ACN_ENCODE_PKT_HDR		1432  /**/
#define ERR_ACN_ENCODE_PKT_HDR_H_VER		1418  /**/
#define ERR_ACN_ENCODE_PKT_HDR_PLEN1_UNINITIALIZED		1477  /**/
#define ERR_ACN_ENCODE_PKT_HDR_PLEN1		1420  /**/
#define ERR_ACN_ENCODE_PKT_HDR_PFL1_UNINITIALIZED		1478  /**/
#define ERR_ACN_ENCODE_PKT_HDR_PFL1		1422  /**/
#define ERR_ACN_ENCODE_PKT_HDR_H_END		1427  /**/
#define ERR_ACN_ENCODE_PKT_BDY		1458  /**/
#define ERR_ACN_ENCODE_PKT_BDY_B_M		1440  /**/
#define ERR_ACN_ENCODE_PKT_BDY_B_O		1445  /**/
#define ERR_ACN_ENCODE_PKT_BDY_B_P		1450  /**/
#define ERR_ACN_ENCODE_PKT_TRAIL_2		1471  /**/

flag Pkt_ACN_Encode(const Pkt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_PKT		1479  /**/
#define ERR_ACN_DECODE_PKT_HDR		1433  /**/
#define ERR_ACN_DECODE_PKT_HDR_H_VER		1419  /**/
#define ERR_ACN_DECODE_PKT_HDR_PLEN1		1421  /**/
#define ERR_ACN_DECODE_PKT_HDR_PFL1		1423  /**/
#define ERR_ACN_DECODE_PKT_HDR_H_END		1428  /**/
#define ERR_ACN_DECODE_PKT_BDY		1459  /**/
#define ERR_ACN_DECODE_PKT_BDY_B_M		1441  /**/
#define ERR_ACN_DECODE_PKT_BDY_B_O		1446  /**/
#define ERR_ACN_DECODE_PKT_BDY_B_P		1451  /**/
#define ERR_ACN_DECODE_PKT_TRAIL_2		1472  /**/
flag Pkt_ACN_Decode(Pkt* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- AMix --------------------------------------------*/
typedef struct {
    unsigned long x_a:1;
} AMix_exist;
typedef struct {
    DSz x_a;
    DPr x_b;
    DCh x_c;
    Pkt x_d;
    AChc x_e;
    ASoE x_f;
    Algn x_g;

    AMix_exist exist;

} AMix;

flag AMix_Equal(const AMix* pVal1, const AMix* pVal2);

#define ERR_AMIX		1515  /**/
#define ERR_AMIX_X_A		1480  /**/
#define ERR_AMIX_X_B		1485  /**/
#define ERR_AMIX_X_C		1490  /**/
#define ERR_AMIX_X_D		1495  /**/
#define ERR_AMIX_X_E		1500  /**/
#define ERR_AMIX_X_F		1505  /**/
#define ERR_AMIX_X_G		1510  /**/
flag AMix_IsConstraintValid(const AMix* pVal, int* pErrCode);

void AMix_Initialize(AMix* pVal);

#define AMix_REQUIRED_BYTES_FOR_ACN_ENCODING       248
#define AMix_REQUIRED_BITS_FOR_ACN_ENCODING        1981

#define ERR_ACN_ENCODE_AMIX		1518  /**/
#define ERR_ACN_ENCODE_AMIX_X_A		1483  /**/
#define ERR_ACN_ENCODE_AMIX_X_B		1488  /**/
#define ERR_ACN_ENCODE_AMIX_X_C		1493  /**/
#define ERR_ACN_ENCODE_AMIX_X_D		1498  /**/
#define ERR_ACN_ENCODE_AMIX_X_E		1503  /**/
#define ERR_ACN_ENCODE_AMIX_X_F		1508  /**/
#define ERR_ACN_ENCODE_AMIX_X_G		1513  /**/

flag AMix_ACN_Encode(const AMix* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_ACN_DECODE_AMIX		1519  /**/
#define ERR_ACN_DECODE_AMIX_X_A		1484  /**/
#define ERR_ACN_DECODE_AMIX_X_B		1489  /**/
#define ERR_ACN_DECODE_AMIX_X_C		1494  /**/
#define ERR_ACN_DECODE_AMIX_X_D		1499  /**/
#define ERR_ACN_DECODE_AMIX_X_E		1504  /**/
#define ERR_ACN_DECODE_AMIX_X_F		1509  /**/
#define ERR_ACN_DECODE_AMIX_X_G		1514  /**/
flag AMix_ACN_Decode(AMix* pVal, BitStream* pBitStrm, int* pErrCode);


/* ================= Encoding/Decoding function prototypes =================
 * These functions are placed at the end of the file to make sure all types
 * have been declared first, in case of parameterized ACN encodings
 * ========================================================================= */



#ifdef  __cplusplus
}

#endif

#endif
