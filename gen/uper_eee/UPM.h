#ifndef GENERATED_ASN1SCC_UPM_H
#define GENERATED_ASN1SCC_UPM_H
/*
Code automatically generated by asn1scc tool
*/
#include "asn1crt.h"
#include "asn1crt_encoding.h"


#ifdef  __cplusplus
extern "C" {
#endif


typedef asn1SccUint U8;


flag U8_Equal(const U8* pVal1, const U8* pVal2);

#define ERR_U8		1  /*(0..255)*/
flag U8_IsConstraintValid(const U8* pVal, int* pErrCode);

void U8_Initialize(U8* pVal);

#define ERR_UPER_ENCODE_U8		2  /**/
#define U8_REQUIRED_BYTES_FOR_ENCODING       1
#define U8_REQUIRED_BITS_FOR_ENCODING        8

flag U8_Encode(const U8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_U8		3  /**/
flag U8_Decode(U8* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnF --------------------------------------------*/
typedef asn1SccUint CnF_a;

typedef struct {
    CnF_a a;
    U8 b;

} CnF;

flag CnF_a_Equal(const CnF_a* pVal1, const CnF_a* pVal2);

flag CnF_Equal(const CnF* pVal1, const CnF* pVal2);

#define ERR_CNF_A		6  /*(0..7)*/
flag CnF_a_IsConstraintValid(const CnF_a* pVal, int* pErrCode);

#define ERR_CNF		21  /**/
#define ERR_CNF_B_2		16  /**/
flag CnF_IsConstraintValid(const CnF* pVal, int* pErrCode);

void CnF_a_Initialize(CnF_a* pVal);
void CnF_Initialize(CnF* pVal);

#define ERR_UPER_ENCODE_CNF		22  /**/
#define ERR_UPER_ENCODE_CNF_A		7  /**/
#define ERR_UPER_ENCODE_CNF_B_2		17  /**/
#define CnF_REQUIRED_BYTES_FOR_ENCODING       2
#define CnF_REQUIRED_BITS_FOR_ENCODING        11

flag CnF_Encode(const CnF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CNF		23  /**/
#define ERR_UPER_DECODE_CNF_A		8  /**/
#define ERR_UPER_DECODE_CNF_B_2		18  /**/
flag CnF_Decode(CnF* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnX --------------------------------------------*/
typedef asn1SccUint CnX_p;

typedef asn1SccUint CnX_t;

typedef struct {
    unsigned long d:1;
} CnX_exist;
typedef struct {
    CnX_p p;
    CnF c;
    CnF d;
    CnX_t t;

    CnX_exist exist;

} CnX;

flag CnX_p_Equal(const CnX_p* pVal1, const CnX_p* pVal2);

flag CnX_t_Equal(const CnX_t* pVal1, const CnX_t* pVal2);

flag CnX_Equal(const CnX* pVal1, const CnX* pVal2);

#define ERR_CNX_P		26  /*(0..7)*/
flag CnX_p_IsConstraintValid(const CnX_p* pVal, int* pErrCode);

#define ERR_CNX_T		81  /*(0..31)*/
flag CnX_t_IsConstraintValid(const CnX_t* pVal, int* pErrCode);

#define ERR_CNX		86  /**/
#define ERR_CNX_C_2		51  /**/
#define ERR_CNX_D_2		76  /**/
flag CnX_IsConstraintValid(const CnX* pVal, int* pErrCode);

void CnX_p_Initialize(CnX_p* pVal);
void CnX_t_Initialize(CnX_t* pVal);
void CnX_Initialize(CnX* pVal);

#define ERR_UPER_ENCODE_CNX		87  /**/
#define ERR_UPER_ENCODE_CNX_P		27  /**/
#define ERR_UPER_ENCODE_CNX_C_2		52  /**/
#define ERR_UPER_ENCODE_CNX_D_2		77  /**/
#define ERR_UPER_ENCODE_CNX_T		82  /**/
#define CnX_REQUIRED_BYTES_FOR_ENCODING       5
#define CnX_REQUIRED_BITS_FOR_ENCODING        36

flag CnX_Encode(const CnX* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CNX		88  /**/
#define ERR_UPER_DECODE_CNX_P		28  /**/
#define ERR_UPER_DECODE_CNX_C_2		53  /**/
#define ERR_UPER_DECODE_CNX_D_2		78  /**/
#define ERR_UPER_DECODE_CNX_T		83  /**/
flag CnX_Decode(CnX* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint I5;


flag I5_Equal(const I5* pVal1, const I5* pVal2);

#define ERR_I5		91  /*(-7..23)*/
flag I5_IsConstraintValid(const I5* pVal, int* pErrCode);

void I5_Initialize(I5* pVal);

#define ERR_UPER_ENCODE_I5		92  /**/
#define I5_REQUIRED_BYTES_FOR_ENCODING       1
#define I5_REQUIRED_BITS_FOR_ENCODING        5

flag I5_Encode(const I5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_I5		93  /**/
flag I5_Decode(I5* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint U1;


flag U1_Equal(const U1* pVal1, const U1* pVal2);

#define ERR_U1		96  /*(5..5)*/
flag U1_IsConstraintValid(const U1* pVal, int* pErrCode);

void U1_Initialize(U1* pVal);

#define ERR_UPER_ENCODE_U1		97  /**/
#define U1_REQUIRED_BYTES_FOR_ENCODING       0
#define U1_REQUIRED_BITS_FOR_ENCODING        0

flag U1_Encode(const U1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_U1		98  /**/
flag U1_Decode(U1* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint I32;


flag I32_Equal(const I32* pVal1, const I32* pVal2);

#define ERR_I32		101  /*(-2147483648..2147483647)*/
flag I32_IsConstraintValid(const I32* pVal, int* pErrCode);

void I32_Initialize(I32* pVal);

#define ERR_UPER_ENCODE_I32		102  /**/
#define I32_REQUIRED_BYTES_FOR_ENCODING       4
#define I32_REQUIRED_BITS_FOR_ENCODING        32

flag I32_Encode(const I32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_I32		103  /**/
flag I32_Decode(I32* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint U32;


flag U32_Equal(const U32* pVal1, const U32* pVal2);

#define ERR_U32		106  /*(0..4294967295)*/
flag U32_IsConstraintValid(const U32* pVal, int* pErrCode);

void U32_Initialize(U32* pVal);

#define ERR_UPER_ENCODE_U32		107  /**/
#define U32_REQUIRED_BYTES_FOR_ENCODING       4
#define U32_REQUIRED_BITS_FOR_ENCODING        32

flag U32_Encode(const U32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_U32		108  /**/
flag U32_Decode(U32* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint I17;


flag I17_Equal(const I17* pVal1, const I17* pVal2);

#define ERR_I17		111  /*(-70000..60001)*/
flag I17_IsConstraintValid(const I17* pVal, int* pErrCode);

void I17_Initialize(I17* pVal);

#define ERR_UPER_ENCODE_I17		112  /**/
#define I17_REQUIRED_BYTES_FOR_ENCODING       3
#define I17_REQUIRED_BITS_FOR_ENCODING        17

flag I17_Encode(const I17* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_I17		113  /**/
flag I17_Decode(I17* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint U24;


flag U24_Equal(const U24* pVal1, const U24* pVal2);

#define ERR_U24		116  /*(1..9000000)*/
flag U24_IsConstraintValid(const U24* pVal, int* pErrCode);

void U24_Initialize(U24* pVal);

#define ERR_UPER_ENCODE_U24		117  /**/
#define U24_REQUIRED_BYTES_FOR_ENCODING       3
#define U24_REQUIRED_BITS_FOR_ENCODING        24

flag U24_Encode(const U24* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_U24		118  /**/
flag U24_Decode(U24* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint Big;


flag Big_Equal(const Big* pVal1, const Big* pVal2);

#define ERR_BIG		121  /**/
flag Big_IsConstraintValid(const Big* pVal, int* pErrCode);

void Big_Initialize(Big* pVal);

#define ERR_UPER_ENCODE_BIG		122  /**/
#define Big_REQUIRED_BYTES_FOR_ENCODING       9
#define Big_REQUIRED_BITS_FOR_ENCODING        72

flag Big_Encode(const Big* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_BIG		123  /**/
flag Big_Decode(Big* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Pt --------------------------------------------*/
typedef asn1SccSint Pt_px;

typedef struct {
    unsigned long py:1;
} Pt_exist;
typedef struct {
    Pt_px px;
    Big py;

    Pt_exist exist;

} Pt;

flag Pt_px_Equal(const Pt_px* pVal1, const Pt_px* pVal2);

flag Pt_Equal(const Pt* pVal1, const Pt* pVal2);

#define ERR_PT_PX		126  /*(-5..5)*/
flag Pt_px_IsConstraintValid(const Pt_px* pVal, int* pErrCode);

#define ERR_PT		141  /**/
#define ERR_PT_PY_2		136  /**/
flag Pt_IsConstraintValid(const Pt* pVal, int* pErrCode);

void Pt_px_Initialize(Pt_px* pVal);
void Pt_Initialize(Pt* pVal);

#define ERR_UPER_ENCODE_PT		142  /**/
#define ERR_UPER_ENCODE_PT_PX		127  /**/
#define ERR_UPER_ENCODE_PT_PY_2		137  /**/
#define Pt_REQUIRED_BYTES_FOR_ENCODING       10
#define Pt_REQUIRED_BITS_FOR_ENCODING        77

flag Pt_Encode(const Pt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_PT		143  /**/
#define ERR_UPER_DECODE_PT_PX		128  /**/
#define ERR_UPER_DECODE_PT_PY_2		138  /**/
flag Pt_Decode(Pt* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    int nCount;
    Pt arr[5];
} SoPt;

flag SoPt_Equal(const SoPt* pVal1, const SoPt* pVal2);

#define ERR_SOPT		151  /*(SIZE(0..5))*/
#define ERR_SOPT_ELM		146  /**/
flag SoPt_IsConstraintValid(const SoPt* pVal, int* pErrCode);

void SoPt_Initialize(SoPt* pVal);

#define ERR_UPER_ENCODE_SOPT		152  /**/
#define ERR_UPER_ENCODE_SOPT_ELM		147  /**/
#define SoPt_REQUIRED_BYTES_FOR_ENCODING       49
#define SoPt_REQUIRED_BITS_FOR_ENCODING        388

flag SoPt_Encode(const SoPt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_SOPT		153  /**/
#define ERR_UPER_DECODE_SOPT_ELM		148  /**/
flag SoPt_Decode(SoPt* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccUint Semi;


flag Semi_Equal(const Semi* pVal1, const Semi* pVal2);

#define ERR_SEMI		156  /*(10..MAX)*/
flag Semi_IsConstraintValid(const Semi* pVal, int* pErrCode);

void Semi_Initialize(Semi* pVal);

#define ERR_UPER_ENCODE_SEMI		157  /**/
#define Semi_REQUIRED_BYTES_FOR_ENCODING       9
#define Semi_REQUIRED_BITS_FOR_ENCODING        72

flag Semi_Encode(const Semi* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_SEMI		158  /**/
flag Semi_Decode(Semi* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint SemiN;


flag SemiN_Equal(const SemiN* pVal1, const SemiN* pVal2);

#define ERR_SEMIN		161  /*(-300..MAX)*/
flag SemiN_IsConstraintValid(const SemiN* pVal, int* pErrCode);

void SemiN_Initialize(SemiN* pVal);

#define ERR_UPER_ENCODE_SEMIN		162  /**/
#define SemiN_REQUIRED_BYTES_FOR_ENCODING       9
#define SemiN_REQUIRED_BITS_FOR_ENCODING        72

flag SemiN_Encode(const SemiN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_SEMIN		163  /**/
flag SemiN_Decode(SemiN* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1SccSint UpTo;


flag UpTo_Equal(const UpTo* pVal1, const UpTo* pVal2);

#define ERR_UPTO		166  /*(MIN..100)*/
flag UpTo_IsConstraintValid(const UpTo* pVal, int* pErrCode);

void UpTo_Initialize(UpTo* pVal);

#define ERR_UPER_ENCODE_UPTO		167  /**/
#define UpTo_REQUIRED_BYTES_FOR_ENCODING       9
#define UpTo_REQUIRED_BITS_FOR_ENCODING        72

flag UpTo_Encode(const UpTo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_UPTO		168  /**/
flag UpTo_Decode(UpTo* pVal, BitStream* pBitStrm, int* pErrCode);
typedef flag Flg;


flag Flg_Equal(const Flg* pVal1, const Flg* pVal2);

#define ERR_FLG		171  /**/
flag Flg_IsConstraintValid(const Flg* pVal, int* pErrCode);

void Flg_Initialize(Flg* pVal);

#define ERR_UPER_ENCODE_FLG		172  /**/
#define Flg_REQUIRED_BYTES_FOR_ENCODING       1
#define Flg_REQUIRED_BITS_FOR_ENCODING        1

flag Flg_Encode(const Flg* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_FLG		173  /**/
flag Flg_Decode(Flg* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnQ --------------------------------------------*/
typedef asn1SccUint CnQ_a;

typedef struct {
    unsigned long c:1;
} CnQ_exist;
typedef struct {
    CnQ_a a;
    Flg b;
    U32 c;

    CnQ_exist exist;

} CnQ;

flag CnQ_a_Equal(const CnQ_a* pVal1, const CnQ_a* pVal2);

flag CnQ_Equal(const CnQ* pVal1, const CnQ* pVal2);

#define ERR_CNQ_A		176  /*(0..7)*/
flag CnQ_a_IsConstraintValid(const CnQ_a* pVal, int* pErrCode);

#define ERR_CNQ		201  /**/
#define ERR_CNQ_B_2		186  /**/
#define ERR_CNQ_C_2		196  /**/
flag CnQ_IsConstraintValid(const CnQ* pVal, int* pErrCode);

void CnQ_a_Initialize(CnQ_a* pVal);
void CnQ_Initialize(CnQ* pVal);

#define ERR_UPER_ENCODE_CNQ		202  /**/
#define ERR_UPER_ENCODE_CNQ_A		177  /**/
#define ERR_UPER_ENCODE_CNQ_B_2		187  /**/
#define ERR_UPER_ENCODE_CNQ_C_2		197  /**/
#define CnQ_REQUIRED_BYTES_FOR_ENCODING       5
#define CnQ_REQUIRED_BITS_FOR_ENCODING        37

flag CnQ_Encode(const CnQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CNQ		203  /**/
#define ERR_UPER_DECODE_CNQ_A		178  /**/
#define ERR_UPER_DECODE_CNQ_B_2		188  /**/
#define ERR_UPER_DECODE_CNQ_C_2		198  /**/
flag CnQ_Decode(CnQ* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnO --------------------------------------------*/
typedef asn1SccUint CnO_p;

typedef asn1SccUint CnO_t;

typedef struct {
    CnO_p p;
    CnQ c;
    CnO_t t;

} CnO;

flag CnO_p_Equal(const CnO_p* pVal1, const CnO_p* pVal2);

flag CnO_t_Equal(const CnO_t* pVal1, const CnO_t* pVal2);

flag CnO_Equal(const CnO* pVal1, const CnO* pVal2);

#define ERR_CNO_P		206  /*(0..7)*/
flag CnO_p_IsConstraintValid(const CnO_p* pVal, int* pErrCode);

#define ERR_CNO_T		246  /*(0..31)*/
flag CnO_t_IsConstraintValid(const CnO_t* pVal, int* pErrCode);

#define ERR_CNO		251  /**/
#define ERR_CNO_C_2		241  /**/
flag CnO_IsConstraintValid(const CnO* pVal, int* pErrCode);

void CnO_p_Initialize(CnO_p* pVal);
void CnO_t_Initialize(CnO_t* pVal);
void CnO_Initialize(CnO* pVal);

#define ERR_UPER_ENCODE_CNO		252  /**/
#define ERR_UPER_ENCODE_CNO_P		207  /**/
#define ERR_UPER_ENCODE_CNO_C_2		242  /**/
#define ERR_UPER_ENCODE_CNO_T		247  /**/
#define CnO_REQUIRED_BYTES_FOR_ENCODING       7
#define CnO_REQUIRED_BITS_FOR_ENCODING        51

flag CnO_Encode(const CnO* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CNO		253  /**/
#define ERR_UPER_DECODE_CNO_P		208  /**/
#define ERR_UPER_DECODE_CNO_C_2		243  /**/
#define ERR_UPER_DECODE_CNO_T		248  /**/
flag CnO_Decode(CnO* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnB --------------------------------------------*/
typedef asn1SccUint CnB_p;

typedef asn1SccUint CnB_t;

typedef struct {
    CnB_p p;
    CnQ c;
    CnB_t t;

} CnB;

flag CnB_p_Equal(const CnB_p* pVal1, const CnB_p* pVal2);

flag CnB_t_Equal(const CnB_t* pVal1, const CnB_t* pVal2);

flag CnB_Equal(const CnB* pVal1, const CnB* pVal2);

#define ERR_CNB_P		256  /*(0..7)*/
flag CnB_p_IsConstraintValid(const CnB_p* pVal, int* pErrCode);

#define ERR_CNB_T		296  /*(0..31)*/
flag CnB_t_IsConstraintValid(const CnB_t* pVal, int* pErrCode);

#define ERR_CNB		301  /**/
#define ERR_CNB_C_2		291  /**/
flag CnB_IsConstraintValid(const CnB* pVal, int* pErrCode);

void CnB_p_Initialize(CnB_p* pVal);
void CnB_t_Initialize(CnB_t* pVal);
void CnB_Initialize(CnB* pVal);

#define ERR_UPER_ENCODE_CNB		302  /**/
#define ERR_UPER_ENCODE_CNB_P		257  /**/
#define ERR_UPER_ENCODE_CNB_C_2		292  /**/
#define ERR_UPER_ENCODE_CNB_T		297  /**/
#define CnB_REQUIRED_BYTES_FOR_ENCODING       7
#define CnB_REQUIRED_BITS_FOR_ENCODING        51

flag CnB_Encode(const CnB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CNB		303  /**/
#define ERR_UPER_DECODE_CNB_P		258  /**/
#define ERR_UPER_DECODE_CNB_C_2		293  /**/
#define ERR_UPER_DECODE_CNB_T		298  /**/
flag CnB_Decode(CnB* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnN --------------------------------------------*/
typedef asn1SccUint CnN_p;



typedef struct {
    int nCount;
    CnB arr[3];
} CnN_d;
typedef struct {
    CnN_p p;
    CnO c;
    CnN_d d;

} CnN;

flag CnN_p_Equal(const CnN_p* pVal1, const CnN_p* pVal2);

flag CnN_d_Equal(const CnN_d* pVal1, const CnN_d* pVal2);

flag CnN_Equal(const CnN* pVal1, const CnN* pVal2);

#define ERR_CNN_P		306  /*(0..7)*/
flag CnN_p_IsConstraintValid(const CnN_p* pVal, int* pErrCode);

#define ERR_CNN_D		371  /*(SIZE(0..3))*/
#define ERR_CNN_D_ELM		366  /**/
flag CnN_d_IsConstraintValid(const CnN_d* pVal, int* pErrCode);

#define ERR_CNN		376  /**/
#define ERR_CNN_C_2		361  /**/
flag CnN_IsConstraintValid(const CnN* pVal, int* pErrCode);

void CnN_p_Initialize(CnN_p* pVal);
void CnN_d_Initialize(CnN_d* pVal);
void CnN_Initialize(CnN* pVal);

#define ERR_UPER_ENCODE_CNN		377  /**/
#define ERR_UPER_ENCODE_CNN_P		307  /**/
#define ERR_UPER_ENCODE_CNN_C_2		362  /**/
#define ERR_UPER_ENCODE_CNN_D		372  /**/
#define ERR_UPER_ENCODE_CNN_D_ELM		367  /**/
#define CnN_REQUIRED_BYTES_FOR_ENCODING       28
#define CnN_REQUIRED_BITS_FOR_ENCODING        217

flag CnN_Encode(const CnN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CNN		378  /**/
#define ERR_UPER_DECODE_CNN_P		308  /**/
#define ERR_UPER_DECODE_CNN_C_2		363  /**/
#define ERR_UPER_DECODE_CNN_D		373  /**/
#define ERR_UPER_DECODE_CNN_D_ELM		368  /**/
flag CnN_Decode(CnN* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1Real Rl;


flag Rl_Equal(const Rl* pVal1, const Rl* pVal2);

#define ERR_RL		381  /**/
flag Rl_IsConstraintValid(const Rl* pVal, int* pErrCode);

void Rl_Initialize(Rl* pVal);

#define ERR_UPER_ENCODE_RL		382  /**/
#define Rl_REQUIRED_BYTES_FOR_ENCODING       13
#define Rl_REQUIRED_BITS_FOR_ENCODING        104

flag Rl_Encode(const Rl* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_RL		383  /**/
flag Rl_Decode(Rl* pVal, BitStream* pBitStrm, int* pErrCode);
typedef asn1Real RlC;


flag RlC_Equal(const RlC* pVal1, const RlC* pVal2);

#define ERR_RLC		386  /*(-10.0..10.5)*/
flag RlC_IsConstraintValid(const RlC* pVal, int* pErrCode);

void RlC_Initialize(RlC* pVal);

#define ERR_UPER_ENCODE_RLC		387  /**/
#define RlC_REQUIRED_BYTES_FOR_ENCODING       13
#define RlC_REQUIRED_BITS_FOR_ENCODING        104

flag RlC_Encode(const RlC* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_RLC		388  /**/
flag RlC_Decode(RlC* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    red = 2,
    green = 5,
    blue = 900
} Col;

// please use the following macros to avoid breaking code.
#define Col_red red
#define Col_green green
#define Col_blue blue

flag Col_Equal(const Col* pVal1, const Col* pVal2);

#define ERR_COL		391  /*red | green | blue*/
flag Col_IsConstraintValid(const Col* pVal, int* pErrCode);

void Col_Initialize(Col* pVal);

#define ERR_UPER_ENCODE_COL		392  /**/
#define Col_REQUIRED_BYTES_FOR_ENCODING       1
#define Col_REQUIRED_BITS_FOR_ENCODING        2

flag Col_Encode(const Col* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_COL		393  /**/
flag Col_Decode(Col* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    w0 = -1000,
    w1 = -7,
    w2 = -1,
    w3 = 0,
    w4 = 1,
    w5 = 3,
    w6 = 4,
    w7 = 8,
    w8 = 9,
    w9 = 17,
    w10 = 40,
    w11 = 41,
    w12 = 42,
    w13 = 99,
    w14 = 255,
    w15 = 256,
    w16 = 300,
    w17 = 65535,
    w18 = 65536,
    w19 = 100000
} Wide;

// please use the following macros to avoid breaking code.
#define Wide_w0 w0
#define Wide_w1 w1
#define Wide_w2 w2
#define Wide_w3 w3
#define Wide_w4 w4
#define Wide_w5 w5
#define Wide_w6 w6
#define Wide_w7 w7
#define Wide_w8 w8
#define Wide_w9 w9
#define Wide_w10 w10
#define Wide_w11 w11
#define Wide_w12 w12
#define Wide_w13 w13
#define Wide_w14 w14
#define Wide_w15 w15
#define Wide_w16 w16
#define Wide_w17 w17
#define Wide_w18 w18
#define Wide_w19 w19

flag Wide_Equal(const Wide* pVal1, const Wide* pVal2);

#define ERR_WIDE		396  /*w0 | w1 | w2 | w3 | w4 | w5 | w6 | w7 | w8 | w9 | w10 | w11 | w12 | w13 | w14 | w15 | w16 | w17 | w18 | w19*/
flag Wide_IsConstraintValid(const Wide* pVal, int* pErrCode);

void Wide_Initialize(Wide* pVal);

#define ERR_UPER_ENCODE_WIDE		397  /**/
#define Wide_REQUIRED_BYTES_FOR_ENCODING       1
#define Wide_REQUIRED_BITS_FOR_ENCODING        5

flag Wide_Encode(const Wide* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_WIDE		398  /**/
flag Wide_Decode(Wide* pVal, BitStream* pBitStrm, int* pErrCode);
typedef enum {
    jj_3 = -4,
    jj_2 = 3,
    jj_5 = 7,
    jj_1 = 50,
    jj_4 = 51
} Jmb;

// please use the following macros to avoid breaking code.
#define Jmb_jj_3 jj_3
#define Jmb_jj_2 jj_2
#define Jmb_jj_5 jj_5
#define Jmb_jj_1 jj_1
#define Jmb_jj_4 jj_4

flag Jmb_Equal(const Jmb* pVal1, const Jmb* pVal2);

#define ERR_JMB		401  /*jj-1 | jj-2 | jj-3 | jj-4 | jj-5*/
flag Jmb_IsConstraintValid(const Jmb* pVal, int* pErrCode);

void Jmb_Initialize(Jmb* pVal);

#define ERR_UPER_ENCODE_JMB		402  /**/
#define Jmb_REQUIRED_BYTES_FOR_ENCODING       1
#define Jmb_REQUIRED_BITS_FOR_ENCODING        3

flag Jmb_Encode(const Jmb* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_JMB		403  /**/
flag Jmb_Decode(Jmb* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    int nCount;
    Jmb arr[6];
} SoJmb;

flag SoJmb_Equal(const SoJmb* pVal1, const SoJmb* pVal2);

#define ERR_SOJMB		416  /*(SIZE(0..6))*/
#define ERR_SOJMB_ELM_2		411  /**/
flag SoJmb_IsConstraintValid(const SoJmb* pVal, int* pErrCode);

void SoJmb_Initialize(SoJmb* pVal);

#define ERR_UPER_ENCODE_SOJMB		417  /**/
#define ERR_UPER_ENCODE_SOJMB_ELM_2		412  /**/
#define SoJmb_REQUIRED_BYTES_FOR_ENCODING       3
#define SoJmb_REQUIRED_BITS_FOR_ENCODING        21

flag SoJmb_Encode(const SoJmb* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_SOJMB		418  /**/
#define ERR_UPER_DECODE_SOJMB_ELM_2		413  /**/
flag SoJmb_Decode(SoJmb* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    byte arr[7];
} OctF;


flag OctF_Equal(const OctF* pVal1, const OctF* pVal2);

#define ERR_OCTF		421  /*(SIZE(7))*/
flag OctF_IsConstraintValid(const OctF* pVal, int* pErrCode);

void OctF_Initialize(OctF* pVal);

#define ERR_UPER_ENCODE_OCTF		422  /**/
#define OctF_REQUIRED_BYTES_FOR_ENCODING       7
#define OctF_REQUIRED_BITS_FOR_ENCODING        56

flag OctF_Encode(const OctF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_OCTF		423  /**/
flag OctF_Decode(OctF* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[40];
} OctV;


flag OctV_Equal(const OctV* pVal1, const OctV* pVal2);

#define ERR_OCTV		426  /*(SIZE(0..40))*/
flag OctV_IsConstraintValid(const OctV* pVal, int* pErrCode);

void OctV_Initialize(OctV* pVal);

#define ERR_UPER_ENCODE_OCTV		427  /**/
#define OctV_REQUIRED_BYTES_FOR_ENCODING       41
#define OctV_REQUIRED_BITS_FOR_ENCODING        326

flag OctV_Encode(const OctV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_OCTV		428  /**/
flag OctV_Decode(OctV* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[300];
} OctBig;


flag OctBig_Equal(const OctBig* pVal1, const OctBig* pVal2);

#define ERR_OCTBIG		431  /*(SIZE(0..300))*/
flag OctBig_IsConstraintValid(const OctBig* pVal, int* pErrCode);

void OctBig_Initialize(OctBig* pVal);

#define ERR_UPER_ENCODE_OCTBIG		432  /**/
#define OctBig_REQUIRED_BYTES_FOR_ENCODING       302
#define OctBig_REQUIRED_BITS_FOR_ENCODING        2409

flag OctBig_Encode(const OctBig* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_OCTBIG		433  /**/
flag OctBig_Decode(OctBig* pVal, BitStream* pBitStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[2];
} Oct1;


flag Oct1_Equal(const Oct1* pVal1, const Oct1* pVal2);

#define ERR_OCT1		436  /*(SIZE(1..2))*/
flag Oct1_IsConstraintValid(const Oct1* pVal, int* pErrCode);

void Oct1_Initialize(Oct1* pVal);

#define ERR_UPER_ENCODE_OCT1		437  /**/
#define Oct1_REQUIRED_BYTES_FOR_ENCODING       3
#define Oct1_REQUIRED_BITS_FOR_ENCODING        17

flag Oct1_Encode(const Oct1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_OCT1		438  /**/
flag Oct1_Decode(Oct1* pVal, BitStream* pBitStrm, int* pErrCode);

typedef struct {
    byte arr[2];
} BitF;

flag BitF_Equal(const BitF* pVal1, const BitF* pVal2);

#define ERR_BITF		441  /*(SIZE(13))*/
flag BitF_IsConstraintValid(const BitF* pVal, int* pErrCode);

void BitF_Initialize(BitF* pVal);

#define ERR_UPER_ENCODE_BITF		442  /**/
#define BitF_REQUIRED_BYTES_FOR_ENCODING       2
#define BitF_REQUIRED_BITS_FOR_ENCODING        13

flag BitF_Encode(const BitF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_BITF		443  /**/
flag BitF_Decode(BitF* pVal, BitStream* pBitStrm, int* pErrCode);

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 50 */
    byte arr[7];
} BitV;

flag BitV_Equal(const BitV* pVal1, const BitV* pVal2);

#define ERR_BITV		446  /*(SIZE(1..50))*/
flag BitV_IsConstraintValid(const BitV* pVal, int* pErrCode);

void BitV_Initialize(BitV* pVal);

#define ERR_UPER_ENCODE_BITV		447  /**/
#define BitV_REQUIRED_BYTES_FOR_ENCODING       7
#define BitV_REQUIRED_BITS_FOR_ENCODING        56

flag BitV_Encode(const BitV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_BITV		448  /**/
flag BitV_Decode(BitV* pVal, BitStream* pBitStrm, int* pErrCode);

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 200 */
    byte arr[25];
} BitB;

flag BitB_Equal(const BitB* pVal1, const BitB* pVal2);

#define ERR_BITB		451  /*(SIZE(0..200))*/
flag BitB_IsConstraintValid(const BitB* pVal, int* pErrCode);

void BitB_Initialize(BitB* pVal);

#define ERR_UPER_ENCODE_BITB		452  /**/
#define BitB_REQUIRED_BYTES_FOR_ENCODING       26
#define BitB_REQUIRED_BITS_FOR_ENCODING        208

flag BitB_Encode(const BitB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_BITB		453  /**/
flag BitB_Decode(BitB* pVal, BitStream* pBitStrm, int* pErrCode);
typedef char StrV[21];

flag StrV_Equal(const StrV pVal1, const StrV pVal2);

#define ERR_STRV		456  /*(SIZE(0..20))*/
flag StrV_IsConstraintValid(const StrV pVal, int* pErrCode);

void StrV_Initialize(StrV pVal);

#define ERR_UPER_ENCODE_STRV		457  /**/
#define StrV_REQUIRED_BYTES_FOR_ENCODING       19
#define StrV_REQUIRED_BITS_FOR_ENCODING        145

flag StrV_Encode(const StrV pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_STRV		458  /**/
flag StrV_Decode(StrV pVal, BitStream* pBitStrm, int* pErrCode);
typedef char StrA[6];

flag StrA_Equal(const StrA pVal1, const StrA pVal2);

#define ERR_STRA		461  /*(SIZE(5))(FROM ("A".."Z"))*/
flag StrA_IsConstraintValid(const StrA pVal, int* pErrCode);

void StrA_Initialize(StrA pVal);

#define ERR_UPER_ENCODE_STRA		462  /**/
#define StrA_REQUIRED_BYTES_FOR_ENCODING       4
#define StrA_REQUIRED_BITS_FOR_ENCODING        25

flag StrA_Encode(const StrA pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_STRA		463  /**/
flag StrA_Decode(StrA pVal, BitStream* pBitStrm, int* pErrCode);
typedef char StrQ[10];

flag StrQ_Equal(const StrQ pVal1, const StrQ pVal2);

#define ERR_STRQ		466  /*(SIZE(1..9))(FROM ("<" | """" | "\" | "'"))*/
flag StrQ_IsConstraintValid(const StrQ pVal, int* pErrCode);

void StrQ_Initialize(StrQ pVal);

#define ERR_UPER_ENCODE_STRQ		467  /**/
#define StrQ_REQUIRED_BYTES_FOR_ENCODING       3
#define StrQ_REQUIRED_BITS_FOR_ENCODING        22

flag StrQ_Encode(const StrQ pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_STRQ		468  /**/
flag StrQ_Decode(StrQ pVal, BitStream* pBitStrm, int* pErrCode);
typedef char StrR[13];

flag StrR_Equal(const StrR pVal1, const StrR pVal2);

#define ERR_STRR		471  /*(SIZE(0..12))(FROM ("!".."""" | "Z".."\" | "'".."("))*/
flag StrR_IsConstraintValid(const StrR pVal, int* pErrCode);

void StrR_Initialize(StrR pVal);

#define ERR_UPER_ENCODE_STRR		472  /**/
#define StrR_REQUIRED_BYTES_FOR_ENCODING       5
#define StrR_REQUIRED_BITS_FOR_ENCODING        40

flag StrR_Encode(const StrR pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_STRR		473  /**/
flag StrR_Decode(StrR pVal, BitStream* pBitStrm, int* pErrCode);
typedef char StrS[8];

flag StrS_Equal(const StrS pVal1, const StrS pVal2);

#define ERR_STRS		476  /*(SIZE(2..7))(FROM ("<>&""';\-"))*/
flag StrS_IsConstraintValid(const StrS pVal, int* pErrCode);

void StrS_Initialize(StrS pVal);

#define ERR_UPER_ENCODE_STRS		477  /**/
#define StrS_REQUIRED_BYTES_FOR_ENCODING       3
#define StrS_REQUIRED_BITS_FOR_ENCODING        24

flag StrS_Encode(const StrS pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_STRS		478  /**/
flag StrS_Decode(StrS pVal, BitStream* pBitStrm, int* pErrCode);
typedef char StrN[10];

flag StrN_Equal(const StrN pVal1, const StrN pVal2);

#define ERR_STRN		481  /*(SIZE(1..9))*/
flag StrN_IsConstraintValid(const StrN pVal, int* pErrCode);

void StrN_Initialize(StrN pVal);

#define ERR_UPER_ENCODE_STRN		482  /**/
#define StrN_REQUIRED_BYTES_FOR_ENCODING       5
#define StrN_REQUIRED_BITS_FOR_ENCODING        40

flag StrN_Encode(const StrN pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_STRN		483  /**/
flag StrN_Decode(StrN pVal, BitStream* pBitStrm, int* pErrCode);
typedef Asn1ObjectIdentifier Oid;


flag Oid_Equal(const Oid* pVal1, const Oid* pVal2);

#define ERR_OID		486  /**/
flag Oid_IsConstraintValid(const Oid* pVal, int* pErrCode);

void Oid_Initialize(Oid* pVal);

#define ERR_UPER_ENCODE_OID		487  /**/
#define Oid_REQUIRED_BYTES_FOR_ENCODING       322
#define Oid_REQUIRED_BITS_FOR_ENCODING        2576

flag Oid_Encode(const Oid* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_OID		488  /**/
flag Oid_Decode(Oid* pVal, BitStream* pBitStrm, int* pErrCode);
typedef Asn1ObjectIdentifier ROid;


flag ROid_Equal(const ROid* pVal1, const ROid* pVal2);

#define ERR_ROID		491  /**/
flag ROid_IsConstraintValid(const ROid* pVal, int* pErrCode);

void ROid_Initialize(ROid* pVal);

#define ERR_UPER_ENCODE_ROID		492  /**/
#define ROid_REQUIRED_BYTES_FOR_ENCODING       322
#define ROid_REQUIRED_BITS_FOR_ENCODING        2576

flag ROid_Encode(const ROid* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_ROID		493  /**/
flag ROid_Decode(ROid* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Nums --------------------------------------------*/
typedef struct {
    unsigned long n_p:1;
} Nums_exist;
typedef struct {
    I32 n_a;
    U32 n_b;
    I17 n_c;
    SemiN n_d;
    UpTo n_e;
    U1 n_f;
    Wide n_g;
    RlC n_h;
    U8 n_i;
    Oid n_o;
    ROid n_p;
    Oct1 n_q;

    Nums_exist exist;

} Nums;

flag Nums_Equal(const Nums* pVal1, const Nums* pVal2);

#define ERR_NUMS		616  /**/
#define ERR_NUMS_N_A_2		501  /**/
#define ERR_NUMS_N_B_2		511  /**/
#define ERR_NUMS_N_C_2		521  /**/
#define ERR_NUMS_N_D_2		531  /**/
#define ERR_NUMS_N_E_2		541  /**/
#define ERR_NUMS_N_F_2		551  /**/
#define ERR_NUMS_N_G_2		561  /**/
#define ERR_NUMS_N_H_2		571  /**/
#define ERR_NUMS_N_I_2		581  /**/
#define ERR_NUMS_N_O_2		591  /**/
#define ERR_NUMS_N_P_2		601  /**/
#define ERR_NUMS_N_Q_2		611  /**/
flag Nums_IsConstraintValid(const Nums* pVal, int* pErrCode);

void Nums_Initialize(Nums* pVal);

#define ERR_UPER_ENCODE_NUMS		617  /**/
#define ERR_UPER_ENCODE_NUMS_N_A_2		502  /**/
#define ERR_UPER_ENCODE_NUMS_N_B_2		512  /**/
#define ERR_UPER_ENCODE_NUMS_N_C_2		522  /**/
#define ERR_UPER_ENCODE_NUMS_N_D_2		532  /**/
#define ERR_UPER_ENCODE_NUMS_N_E_2		542  /**/
#define ERR_UPER_ENCODE_NUMS_N_F_2		552  /**/
#define ERR_UPER_ENCODE_NUMS_N_G_2		562  /**/
#define ERR_UPER_ENCODE_NUMS_N_H_2		572  /**/
#define ERR_UPER_ENCODE_NUMS_N_I_2		582  /**/
#define ERR_UPER_ENCODE_NUMS_N_O_2		592  /**/
#define ERR_UPER_ENCODE_NUMS_N_P_2		602  /**/
#define ERR_UPER_ENCODE_NUMS_N_Q_2		612  /**/
#define Nums_REQUIRED_BYTES_FOR_ENCODING       689
#define Nums_REQUIRED_BITS_FOR_ENCODING        5512

flag Nums_Encode(const Nums* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_NUMS		618  /**/
#define ERR_UPER_DECODE_NUMS_N_A_2		503  /**/
#define ERR_UPER_DECODE_NUMS_N_B_2		513  /**/
#define ERR_UPER_DECODE_NUMS_N_C_2		523  /**/
#define ERR_UPER_DECODE_NUMS_N_D_2		533  /**/
#define ERR_UPER_DECODE_NUMS_N_E_2		543  /**/
#define ERR_UPER_DECODE_NUMS_N_F_2		553  /**/
#define ERR_UPER_DECODE_NUMS_N_G_2		563  /**/
#define ERR_UPER_DECODE_NUMS_N_H_2		573  /**/
#define ERR_UPER_DECODE_NUMS_N_I_2		583  /**/
#define ERR_UPER_DECODE_NUMS_N_O_2		593  /**/
#define ERR_UPER_DECODE_NUMS_N_P_2		603  /**/
#define ERR_UPER_DECODE_NUMS_N_Q_2		613  /**/
flag Nums_Decode(Nums* pVal, BitStream* pBitStrm, int* pErrCode);
typedef NullType Nul;


flag Nul_Equal(const Nul* pVal1, const Nul* pVal2);

void Nul_Initialize(Nul* pVal);

#define Nul_REQUIRED_BYTES_FOR_ENCODING       0
#define Nul_REQUIRED_BITS_FOR_ENCODING        0

flag Nul_Encode(const Nul* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

flag Nul_Decode(Nul* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Chc --------------------------------------------*/
typedef asn1SccUint Chc_c_a;


typedef enum {
    Chc_NONE,
    c_a_PRESENT,
    c_b_PRESENT,
    c_c_PRESENT,
    c_d_PRESENT,
    c_e_PRESENT,
    c_f_PRESENT,
    c_g_PRESENT
} Chc_selection;

typedef union {
    Chc_c_a c_a;
    flag c_b;
    OctV c_c;
    StrV c_d;
    Rl c_e;
    Pt c_f;
    Nul c_g;
} Chc_unchecked_union;

typedef struct {
    Chc_selection kind;

    Chc_unchecked_union u;
} Chc;

flag Chc_c_a_Equal(const Chc_c_a* pVal1, const Chc_c_a* pVal2);

flag Chc_Equal(const Chc* pVal1, const Chc* pVal2);

#define ERR_CHC_C_A		625  /*(0..3)*/
flag Chc_c_a_IsConstraintValid(const Chc_c_a* pVal, int* pErrCode);

#define ERR_CHC		679  /**/
#define ERR_CHC_C_B		630  /**/
#define ERR_CHC_C_C_2		640  /**/
#define ERR_CHC_C_D_2		650  /**/
#define ERR_CHC_C_E_2		660  /**/
#define ERR_CHC_C_F		665  /**/
#define ERR_CHC_C_G		674  /**/
flag Chc_IsConstraintValid(const Chc* pVal, int* pErrCode);

void Chc_c_a_Initialize(Chc_c_a* pVal);
void Chc_Initialize(Chc* pVal);

#define ERR_UPER_ENCODE_CHC		680  /**/
#define ERR_UPER_ENCODE_CHC_C_A		626  /**/
#define ERR_UPER_ENCODE_CHC_C_B		631  /**/
#define ERR_UPER_ENCODE_CHC_C_C_2		641  /**/
#define ERR_UPER_ENCODE_CHC_C_D_2		651  /**/
#define ERR_UPER_ENCODE_CHC_C_E_2		661  /**/
#define ERR_UPER_ENCODE_CHC_C_F		666  /**/
#define ERR_UPER_ENCODE_CHC_C_G_2		675  /**/
#define Chc_REQUIRED_BYTES_FOR_ENCODING       42
#define Chc_REQUIRED_BITS_FOR_ENCODING        329

flag Chc_Encode(const Chc* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CHC		681  /**/
#define ERR_UPER_DECODE_CHC_C_A		627  /**/
#define ERR_UPER_DECODE_CHC_C_B		632  /**/
#define ERR_UPER_DECODE_CHC_C_C_2		642  /**/
#define ERR_UPER_DECODE_CHC_C_D_2		652  /**/
#define ERR_UPER_DECODE_CHC_C_E_2		662  /**/
#define ERR_UPER_DECODE_CHC_C_F		667  /**/
#define ERR_UPER_DECODE_CHC_C_G_2		676  /**/
flag Chc_Decode(Chc* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Chc2 --------------------------------------------*/

typedef enum {
    Chc2_NONE,
    d_a_PRESENT,
    d_b_PRESENT
} Chc2_selection;

typedef union {
    Chc d_a;
    SoPt d_b;
} Chc2_unchecked_union;

typedef struct {
    Chc2_selection kind;

    Chc2_unchecked_union u;
} Chc2;

flag Chc2_Equal(const Chc2* pVal1, const Chc2* pVal2);

#define ERR_CHC2		694  /**/
#define ERR_CHC2_D_A		684  /**/
#define ERR_CHC2_D_B		689  /**/
flag Chc2_IsConstraintValid(const Chc2* pVal, int* pErrCode);

void Chc2_Initialize(Chc2* pVal);

#define ERR_UPER_ENCODE_CHC2		695  /**/
#define ERR_UPER_ENCODE_CHC2_D_A		685  /**/
#define ERR_UPER_ENCODE_CHC2_D_B		690  /**/
#define Chc2_REQUIRED_BYTES_FOR_ENCODING       49
#define Chc2_REQUIRED_BITS_FOR_ENCODING        389

flag Chc2_Encode(const Chc2* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CHC2		696  /**/
#define ERR_UPER_DECODE_CHC2_D_A		686  /**/
#define ERR_UPER_DECODE_CHC2_D_B		691  /**/
flag Chc2_Decode(Chc2* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- CnV --------------------------------------------*/
typedef asn1SccUint CnV_p;

typedef struct {
    unsigned long c:1;
} CnV_exist;
typedef struct {
    CnV_p p;
    OctBig c;
    Chc d;

    CnV_exist exist;

} CnV;

flag CnV_p_Equal(const CnV_p* pVal1, const CnV_p* pVal2);

flag CnV_Equal(const CnV* pVal1, const CnV* pVal2);

#define ERR_CNV_P		699  /*(0..7)*/
flag CnV_p_IsConstraintValid(const CnV_p* pVal, int* pErrCode);

#define ERR_CNV		778  /**/
#define ERR_CNV_C_2		709  /**/
#define ERR_CNV_D_2		773  /**/
flag CnV_IsConstraintValid(const CnV* pVal, int* pErrCode);

void CnV_p_Initialize(CnV_p* pVal);
void CnV_Initialize(CnV* pVal);

#define ERR_UPER_ENCODE_CNV		779  /**/
#define ERR_UPER_ENCODE_CNV_P		700  /**/
#define ERR_UPER_ENCODE_CNV_C_2		710  /**/
#define ERR_UPER_ENCODE_CNV_D_2		774  /**/
#define CnV_REQUIRED_BYTES_FOR_ENCODING       346
#define CnV_REQUIRED_BITS_FOR_ENCODING        2767

flag CnV_Encode(const CnV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_CNV		780  /**/
#define ERR_UPER_DECODE_CNV_P		701  /**/
#define ERR_UPER_DECODE_CNV_C_2		711  /**/
#define ERR_UPER_DECODE_CNV_D_2		775  /**/
flag CnV_Decode(CnV* pVal, BitStream* pBitStrm, int* pErrCode);

typedef asn1SccUint SoInt_elem;


typedef struct {
    int nCount;
    SoInt_elem arr[12];
} SoInt;

flag SoInt_elem_Equal(const SoInt_elem* pVal1, const SoInt_elem* pVal2);

flag SoInt_Equal(const SoInt* pVal1, const SoInt* pVal2);

#define ERR_SOINT_ELM		783  /*(0..1000)*/
flag SoInt_elem_IsConstraintValid(const SoInt_elem* pVal, int* pErrCode);

#define ERR_SOINT		788  /*(SIZE(0..12))*/
flag SoInt_IsConstraintValid(const SoInt* pVal, int* pErrCode);

void SoInt_elem_Initialize(SoInt_elem* pVal);
void SoInt_Initialize(SoInt* pVal);

#define ERR_UPER_ENCODE_SOINT		789  /**/
#define ERR_UPER_ENCODE_SOINT_ELM		784  /**/
#define SoInt_REQUIRED_BYTES_FOR_ENCODING       16
#define SoInt_REQUIRED_BITS_FOR_ENCODING        124

flag SoInt_Encode(const SoInt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_SOINT		790  /**/
#define ERR_UPER_DECODE_SOINT_ELM		785  /**/
flag SoInt_Decode(SoInt* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    int nCount;
    SoInt arr[3];
} SoSo;

flag SoSo_Equal(const SoSo* pVal1, const SoSo* pVal2);

#define ERR_SOSO		798  /*(SIZE(1..3))*/
#define ERR_SOSO_ELM		793  /**/
flag SoSo_IsConstraintValid(const SoSo* pVal, int* pErrCode);

void SoSo_Initialize(SoSo* pVal);

#define ERR_UPER_ENCODE_SOSO		799  /**/
#define ERR_UPER_ENCODE_SOSO_ELM		794  /**/
#define SoSo_REQUIRED_BYTES_FOR_ENCODING       47
#define SoSo_REQUIRED_BITS_FOR_ENCODING        374

flag SoSo_Encode(const SoSo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_SOSO		800  /**/
#define ERR_UPER_DECODE_SOSO_ELM		795  /**/
flag SoSo_Decode(SoSo* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Rec --------------------------------------------*/
typedef struct {
    unsigned long f_big:1;
    unsigned long f_col:1;
    unsigned long f_bf:1;
    unsigned long f_sn:1;
    unsigned long f_u24:1;
} Rec_exist;
typedef struct {
    Flg f_b;
    I5 f_i1;
    Big f_big;
    Semi f_semi;
    Col f_col;
    OctF f_ofx;
    OctV f_ov;
    BitF f_bf;
    BitV f_bv;
    StrV f_s;
    StrA f_sa;
    Chc f_ch;
    SoInt f_so;
    Rl f_r;
    StrN f_sn;
    U24 f_u24;

    Rec_exist exist;

} Rec;

flag Rec_Equal(const Rec* pVal1, const Rec* pVal2);

#define ERR_REC		953  /**/
#define ERR_REC_F_B_2		808  /**/
#define ERR_REC_F_I1_2		818  /**/
#define ERR_REC_F_BIG_2		828  /**/
#define ERR_REC_F_SEMI_2		838  /**/
#define ERR_REC_F_COL_2		848  /**/
#define ERR_REC_F_OFX_2		858  /**/
#define ERR_REC_F_OV_2		868  /**/
#define ERR_REC_F_BF_2		878  /**/
#define ERR_REC_F_BV_2		888  /**/
#define ERR_REC_F_S_2		898  /**/
#define ERR_REC_F_SA_2		908  /**/
#define ERR_REC_F_CH		913  /**/
#define ERR_REC_F_SO		918  /**/
#define ERR_REC_F_R_2		928  /**/
#define ERR_REC_F_SN_2		938  /**/
#define ERR_REC_F_U24_2		948  /**/
flag Rec_IsConstraintValid(const Rec* pVal, int* pErrCode);

void Rec_Initialize(Rec* pVal);

#define ERR_UPER_ENCODE_REC		954  /**/
#define ERR_UPER_ENCODE_REC_F_B_2		809  /**/
#define ERR_UPER_ENCODE_REC_F_I1_2		819  /**/
#define ERR_UPER_ENCODE_REC_F_BIG_2		829  /**/
#define ERR_UPER_ENCODE_REC_F_SEMI_2		839  /**/
#define ERR_UPER_ENCODE_REC_F_COL_2		849  /**/
#define ERR_UPER_ENCODE_REC_F_OFX_2		859  /**/
#define ERR_UPER_ENCODE_REC_F_OV_2		869  /**/
#define ERR_UPER_ENCODE_REC_F_BF_2		879  /**/
#define ERR_UPER_ENCODE_REC_F_BV_2		889  /**/
#define ERR_UPER_ENCODE_REC_F_S_2		899  /**/
#define ERR_UPER_ENCODE_REC_F_SA_2		909  /**/
#define ERR_UPER_ENCODE_REC_F_CH		914  /**/
#define ERR_UPER_ENCODE_REC_F_SO		919  /**/
#define ERR_UPER_ENCODE_REC_F_R_2		929  /**/
#define ERR_UPER_ENCODE_REC_F_SN_2		939  /**/
#define ERR_UPER_ENCODE_REC_F_U24_2		949  /**/
#define Rec_REQUIRED_BYTES_FOR_ENCODING       175
#define Rec_REQUIRED_BITS_FOR_ENCODING        1399

flag Rec_Encode(const Rec* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_REC		955  /**/
#define ERR_UPER_DECODE_REC_F_B_2		810  /**/
#define ERR_UPER_DECODE_REC_F_I1_2		820  /**/
#define ERR_UPER_DECODE_REC_F_BIG_2		830  /**/
#define ERR_UPER_DECODE_REC_F_SEMI_2		840  /**/
#define ERR_UPER_DECODE_REC_F_COL_2		850  /**/
#define ERR_UPER_DECODE_REC_F_OFX_2		860  /**/
#define ERR_UPER_DECODE_REC_F_OV_2		870  /**/
#define ERR_UPER_DECODE_REC_F_BF_2		880  /**/
#define ERR_UPER_DECODE_REC_F_BV_2		890  /**/
#define ERR_UPER_DECODE_REC_F_S_2		900  /**/
#define ERR_UPER_DECODE_REC_F_SA_2		910  /**/
#define ERR_UPER_DECODE_REC_F_CH		915  /**/
#define ERR_UPER_DECODE_REC_F_SO		920  /**/
#define ERR_UPER_DECODE_REC_F_R_2		930  /**/
#define ERR_UPER_DECODE_REC_F_SN_2		940  /**/
#define ERR_UPER_DECODE_REC_F_U24_2		950  /**/
flag Rec_Decode(Rec* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    int nCount;
    Rec arr[4];
} Log;

flag Log_Equal(const Log* pVal1, const Log* pVal2);

#define ERR_LOG		963  /*(SIZE(0..4))*/
#define ERR_LOG_ELM		958  /**/
flag Log_IsConstraintValid(const Log* pVal, int* pErrCode);

void Log_Initialize(Log* pVal);

#define ERR_UPER_ENCODE_LOG		964  /**/
#define ERR_UPER_ENCODE_LOG_ELM		959  /**/
#define Log_REQUIRED_BYTES_FOR_ENCODING       700
#define Log_REQUIRED_BITS_FOR_ENCODING        5599

flag Log_Encode(const Log* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_LOG		965  /**/
#define ERR_UPER_DECODE_LOG_ELM		960  /**/
flag Log_Decode(Log* pVal, BitStream* pBitStrm, int* pErrCode);


typedef struct {
    flag arr[9];
} SoFix;

flag SoFix_Equal(const SoFix* pVal1, const SoFix* pVal2);

#define ERR_SOFIX		973  /*(SIZE(9))*/
#define ERR_SOFIX_ELM		968  /**/
flag SoFix_IsConstraintValid(const SoFix* pVal, int* pErrCode);

void SoFix_Initialize(SoFix* pVal);

#define ERR_UPER_ENCODE_SOFIX		974  /**/
#define ERR_UPER_ENCODE_SOFIX_ELM		969  /**/
#define SoFix_REQUIRED_BYTES_FOR_ENCODING       2
#define SoFix_REQUIRED_BITS_FOR_ENCODING        9

flag SoFix_Encode(const SoFix* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_SOFIX		975  /**/
#define ERR_UPER_DECODE_SOFIX_ELM		970  /**/
flag SoFix_Decode(SoFix* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- Mix --------------------------------------------*/
/*-- Mix_m_f --------------------------------------------*/
typedef asn1SccUint Mix_m_f_k_b;

typedef struct {
    unsigned long k_b:1;
} Mix_m_f_exist;
typedef struct {
    flag k_a;
    Mix_m_f_k_b k_b;

    Mix_m_f_exist exist;

} Mix_m_f;
typedef struct {
    unsigned long m_d:1;
    unsigned long m_f:1;
} Mix_exist;
typedef struct {
    Chc2 m_a;
    SoSo m_b;
    SoFix m_c;
    OctBig m_d;
    BitB m_e;
    SoJmb m_g;
    Mix_m_f m_f;

    Mix_exist exist;

} Mix;

flag Mix_m_f_k_b_Equal(const Mix_m_f_k_b* pVal1, const Mix_m_f_k_b* pVal2);

flag Mix_m_f_Equal(const Mix_m_f* pVal1, const Mix_m_f* pVal2);

flag Mix_Equal(const Mix* pVal1, const Mix* pVal2);

#define ERR_MIX_M_F_K_B		1023  /*(0..70)*/
flag Mix_m_f_k_b_IsConstraintValid(const Mix_m_f_k_b* pVal, int* pErrCode);

#define ERR_MIX_M_F		1028  /**/
#define ERR_MIX_M_F_K_A		1018  /**/
flag Mix_m_f_IsConstraintValid(const Mix_m_f* pVal, int* pErrCode);

#define ERR_MIX		1033  /**/
#define ERR_MIX_M_A		978  /**/
#define ERR_MIX_M_B		983  /**/
#define ERR_MIX_M_C		988  /**/
#define ERR_MIX_M_D_2		998  /**/
#define ERR_MIX_M_E_2		1008  /**/
#define ERR_MIX_M_G		1013  /**/
flag Mix_IsConstraintValid(const Mix* pVal, int* pErrCode);

void Mix_m_f_k_b_Initialize(Mix_m_f_k_b* pVal);
void Mix_m_f_Initialize(Mix_m_f* pVal);
void Mix_Initialize(Mix* pVal);

#define ERR_UPER_ENCODE_MIX		1034  /**/
#define ERR_UPER_ENCODE_MIX_M_A		979  /**/
#define ERR_UPER_ENCODE_MIX_M_B		984  /**/
#define ERR_UPER_ENCODE_MIX_M_C		989  /**/
#define ERR_UPER_ENCODE_MIX_M_D_2		999  /**/
#define ERR_UPER_ENCODE_MIX_M_E_2		1009  /**/
#define ERR_UPER_ENCODE_MIX_M_G		1014  /**/
#define ERR_UPER_ENCODE_MIX_M_F		1029  /**/
#define ERR_UPER_ENCODE_MIX_M_F_K_A		1019  /**/
#define ERR_UPER_ENCODE_MIX_M_F_K_B		1024  /**/
#define Mix_REQUIRED_BYTES_FOR_ENCODING       428
#define Mix_REQUIRED_BITS_FOR_ENCODING        3421

flag Mix_Encode(const Mix* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_MIX		1035  /**/
#define ERR_UPER_DECODE_MIX_M_A		980  /**/
#define ERR_UPER_DECODE_MIX_M_B		985  /**/
#define ERR_UPER_DECODE_MIX_M_C		990  /**/
#define ERR_UPER_DECODE_MIX_M_D_2		1000  /**/
#define ERR_UPER_DECODE_MIX_M_E_2		1010  /**/
#define ERR_UPER_DECODE_MIX_M_G		1015  /**/
#define ERR_UPER_DECODE_MIX_M_F		1030  /**/
#define ERR_UPER_DECODE_MIX_M_F_K_A		1020  /**/
#define ERR_UPER_DECODE_MIX_M_F_K_B		1025  /**/
flag Mix_Decode(Mix* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- FragO --------------------------------------------*/
typedef struct {
    int nCount;
    byte arr[70000];
} FragO_g_o;

typedef asn1SccUint FragO_g_z;

typedef struct {
    flag g_x;
    FragO_g_o g_o;
    FragO_g_z g_z;

} FragO;

flag FragO_g_o_Equal(const FragO_g_o* pVal1, const FragO_g_o* pVal2);

flag FragO_g_z_Equal(const FragO_g_z* pVal1, const FragO_g_z* pVal2);

flag FragO_Equal(const FragO* pVal1, const FragO* pVal2);

#define ERR_FRAGO_G_O		1043  /*(SIZE(1..70000))*/
flag FragO_g_o_IsConstraintValid(const FragO_g_o* pVal, int* pErrCode);

#define ERR_FRAGO_G_Z		1048  /*(0..7)*/
flag FragO_g_z_IsConstraintValid(const FragO_g_z* pVal, int* pErrCode);

#define ERR_FRAGO		1053  /**/
#define ERR_FRAGO_G_X		1038  /**/
flag FragO_IsConstraintValid(const FragO* pVal, int* pErrCode);

void FragO_g_o_Initialize(FragO_g_o* pVal);
void FragO_g_z_Initialize(FragO_g_z* pVal);
void FragO_Initialize(FragO* pVal);

#define ERR_UPER_ENCODE_FRAGO		1054  /**/
#define ERR_UPER_ENCODE_FRAGO_G_X		1039  /**/
#define ERR_UPER_ENCODE_FRAGO_G_O		1044  /**/
#define ERR_UPER_ENCODE_FRAGO_G_Z		1049  /**/
#define FragO_REQUIRED_BYTES_FOR_ENCODING       70005
#define FragO_REQUIRED_BITS_FOR_ENCODING        560036

flag FragO_Encode(const FragO* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_FRAGO		1055  /**/
#define ERR_UPER_DECODE_FRAGO_G_X		1040  /**/
#define ERR_UPER_DECODE_FRAGO_G_O		1045  /**/
#define ERR_UPER_DECODE_FRAGO_G_Z		1050  /**/
flag FragO_Decode(FragO* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- FragB --------------------------------------------*/

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 140000 */
    byte arr[17500];
} FragB_h_o;
typedef asn1SccUint FragB_h_z;

typedef struct {
    flag h_x;
    FragB_h_o h_o;
    FragB_h_z h_z;

} FragB;

flag FragB_h_o_Equal(const FragB_h_o* pVal1, const FragB_h_o* pVal2);

flag FragB_h_z_Equal(const FragB_h_z* pVal1, const FragB_h_z* pVal2);

flag FragB_Equal(const FragB* pVal1, const FragB* pVal2);

#define ERR_FRAGB_H_O		1063  /*(SIZE(1..140000))*/
flag FragB_h_o_IsConstraintValid(const FragB_h_o* pVal, int* pErrCode);

#define ERR_FRAGB_H_Z		1068  /*(0..7)*/
flag FragB_h_z_IsConstraintValid(const FragB_h_z* pVal, int* pErrCode);

#define ERR_FRAGB		1073  /**/
#define ERR_FRAGB_H_X		1058  /**/
flag FragB_IsConstraintValid(const FragB* pVal, int* pErrCode);

void FragB_h_o_Initialize(FragB_h_o* pVal);
void FragB_h_z_Initialize(FragB_h_z* pVal);
void FragB_Initialize(FragB* pVal);

#define ERR_UPER_ENCODE_FRAGB		1074  /**/
#define ERR_UPER_ENCODE_FRAGB_H_X		1059  /**/
#define ERR_UPER_ENCODE_FRAGB_H_O		1064  /**/
#define ERR_UPER_ENCODE_FRAGB_H_Z		1069  /**/
#define FragB_REQUIRED_BYTES_FOR_ENCODING       17506
#define FragB_REQUIRED_BITS_FOR_ENCODING        140044

flag FragB_Encode(const FragB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_FRAGB		1075  /**/
#define ERR_UPER_DECODE_FRAGB_H_X		1060  /**/
#define ERR_UPER_DECODE_FRAGB_H_O		1065  /**/
#define ERR_UPER_DECODE_FRAGB_H_Z		1070  /**/
flag FragB_Decode(FragB* pVal, BitStream* pBitStrm, int* pErrCode);
/*-- FragQ --------------------------------------------*/

typedef asn1SccUint FragQ_q_o_elem;


typedef struct {
    int nCount;
    FragQ_q_o_elem arr[68000];
} FragQ_q_o;
typedef asn1SccUint FragQ_q_z;

typedef struct {
    flag q_x;
    FragQ_q_o q_o;
    FragQ_q_z q_z;

} FragQ;

flag FragQ_q_o_elem_Equal(const FragQ_q_o_elem* pVal1, const FragQ_q_o_elem* pVal2);

flag FragQ_q_o_Equal(const FragQ_q_o* pVal1, const FragQ_q_o* pVal2);

flag FragQ_q_z_Equal(const FragQ_q_z* pVal1, const FragQ_q_z* pVal2);

flag FragQ_Equal(const FragQ* pVal1, const FragQ* pVal2);

#define ERR_FRAGQ_Q_O_ELM		1083  /*(0..3)*/
flag FragQ_q_o_elem_IsConstraintValid(const FragQ_q_o_elem* pVal, int* pErrCode);

#define ERR_FRAGQ_Q_O		1088  /*(SIZE(1..68000))*/
flag FragQ_q_o_IsConstraintValid(const FragQ_q_o* pVal, int* pErrCode);

#define ERR_FRAGQ_Q_Z		1093  /*(0..7)*/
flag FragQ_q_z_IsConstraintValid(const FragQ_q_z* pVal, int* pErrCode);

#define ERR_FRAGQ		1098  /**/
#define ERR_FRAGQ_Q_X		1078  /**/
flag FragQ_IsConstraintValid(const FragQ* pVal, int* pErrCode);

void FragQ_q_o_elem_Initialize(FragQ_q_o_elem* pVal);
void FragQ_q_o_Initialize(FragQ_q_o* pVal);
void FragQ_q_z_Initialize(FragQ_q_z* pVal);
void FragQ_Initialize(FragQ* pVal);

#define ERR_UPER_ENCODE_FRAGQ		1099  /**/
#define ERR_UPER_ENCODE_FRAGQ_Q_X		1079  /**/
#define ERR_UPER_ENCODE_FRAGQ_Q_O		1089  /**/
#define ERR_UPER_ENCODE_FRAGQ_Q_O_ELM		1084  /**/
#define ERR_UPER_ENCODE_FRAGQ_Q_Z		1094  /**/
#define FragQ_REQUIRED_BYTES_FOR_ENCODING       17005
#define FragQ_REQUIRED_BITS_FOR_ENCODING        136036

flag FragQ_Encode(const FragQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints);

#define ERR_UPER_DECODE_FRAGQ		1100  /**/
#define ERR_UPER_DECODE_FRAGQ_Q_X		1080  /**/
#define ERR_UPER_DECODE_FRAGQ_Q_O		1090  /**/
#define ERR_UPER_DECODE_FRAGQ_Q_O_ELM		1085  /**/
#define ERR_UPER_DECODE_FRAGQ_Q_Z		1095  /**/
flag FragQ_Decode(FragQ* pVal, BitStream* pBitStrm, int* pErrCode);


/* ================= Encoding/Decoding function prototypes =================
 * These functions are placed at the end of the file to make sure all types
 * have been declared first, in case of parameterized ACN encodings
 * ========================================================================= */



#ifdef  __cplusplus
}

#endif

#endif
