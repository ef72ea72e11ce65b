#ifndef GENERATED_ASN1SCC_XEM_H
#define GENERATED_ASN1SCC_XEM_H
/*
Code automatically generated by asn1scc tool
*/
#include "asn1crt.h"
#include "asn1crt_encoding.h"


#ifdef  __cplusplus
extern "C" {
#endif


typedef asn1SccUint XU8;


flag XU8_Equal(const XU8* pVal1, const XU8* pVal2);

#define ERR_XU8		1  /*(0..255)*/
flag XU8_IsConstraintValid(const XU8* pVal, int* pErrCode);

void XU8_Initialize(XU8* pVal);

#define ERR_XER_ENCODE_XU8		6  /**/
#define XU8_REQUIRED_BYTES_FOR_XER_ENCODING       32

flag XU8_XER_Encode(const XU8* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XU8_XER_Encode_aux(const XU8* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XU8		7  /**/
flag XU8_XER_Decode(XU8* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XU8_XER_Decode_aux(XU8* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
/*-- XEmpty --------------------------------------------*/
typedef struct {
    unsigned long o_a:1;
    unsigned long o_b:1;
} XEmpty_exist;
typedef struct {
    flag o_a;
    XU8 o_b;

    XEmpty_exist exist;

} XEmpty;

flag XEmpty_Equal(const XEmpty* pVal1, const XEmpty* pVal2);

#define ERR_XEMPTY		29  /**/
#define ERR_XEMPTY_O_A		8  /**/
#define ERR_XEMPTY_O_B_2		22  /**/
flag XEmpty_IsConstraintValid(const XEmpty* pVal, int* pErrCode);

void XEmpty_Initialize(XEmpty* pVal);

#define ERR_XER_ENCODE_XEMPTY		34  /**/
#define ERR_XER_ENCODE_XEMPTY_O_A		13  /**/
#define ERR_XER_ENCODE_XEMPTY_O_B_2		27  /**/
#define XEmpty_REQUIRED_BYTES_FOR_XER_ENCODING       70

flag XEmpty_XER_Encode(const XEmpty* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XEmpty_XER_Encode_aux(const XEmpty* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XEMPTY		35  /**/
#define ERR_XER_DECODE_XEMPTY_O_A		14  /**/
#define ERR_XER_DECODE_XEMPTY_O_B_2		28  /**/
flag XEmpty_XER_Decode(XEmpty* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XEmpty_XER_Decode_aux(XEmpty* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccSint XI5;


flag XI5_Equal(const XI5* pVal1, const XI5* pVal2);

#define ERR_XI5		36  /*(-7..23)*/
flag XI5_IsConstraintValid(const XI5* pVal, int* pErrCode);

void XI5_Initialize(XI5* pVal);

#define ERR_XER_ENCODE_XI5		41  /**/
#define XI5_REQUIRED_BYTES_FOR_XER_ENCODING       32

flag XI5_XER_Encode(const XI5* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XI5_XER_Encode_aux(const XI5* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XI5		42  /**/
flag XI5_XER_Decode(XI5* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XI5_XER_Decode_aux(XI5* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccSint XBig;


flag XBig_Equal(const XBig* pVal1, const XBig* pVal2);

#define ERR_XBIG		43  /**/
flag XBig_IsConstraintValid(const XBig* pVal, int* pErrCode);

void XBig_Initialize(XBig* pVal);

#define ERR_XER_ENCODE_XBIG		48  /**/
#define XBig_REQUIRED_BYTES_FOR_XER_ENCODING       34

flag XBig_XER_Encode(const XBig* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XBig_XER_Encode_aux(const XBig* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XBIG		49  /**/
flag XBig_XER_Decode(XBig* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XBig_XER_Decode_aux(XBig* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
/*-- XPt --------------------------------------------*/
typedef asn1SccSint XPt_x_px;

typedef struct {
    unsigned long x_py:1;
} XPt_exist;
typedef struct {
    XPt_x_px x_px;
    XBig x_py;

    XPt_exist exist;

} XPt;

flag XPt_x_px_Equal(const XPt_x_px* pVal1, const XPt_x_px* pVal2);

flag XPt_Equal(const XPt* pVal1, const XPt* pVal2);

#define ERR_XPT_X_PX		50  /*(-5..5)*/
flag XPt_x_px_IsConstraintValid(const XPt_x_px* pVal, int* pErrCode);

#define ERR_XPT		71  /**/
#define ERR_XPT_X_PY_2		64  /**/
flag XPt_IsConstraintValid(const XPt* pVal, int* pErrCode);

void XPt_x_px_Initialize(XPt_x_px* pVal);
void XPt_Initialize(XPt* pVal);

#define ERR_XER_ENCODE_XPT		76  /**/
#define ERR_XER_ENCODE_XPT_X_PX		55  /**/
#define ERR_XER_ENCODE_XPT_X_PY_2		69  /**/
#define XPt_REQUIRED_BYTES_FOR_XER_ENCODING       80

flag XPt_XER_Encode(const XPt* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XPt_XER_Encode_aux(const XPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XPT		77  /**/
#define ERR_XER_DECODE_XPT_X_PX		56  /**/
#define ERR_XER_DECODE_XPT_X_PY_2		70  /**/
flag XPt_XER_Decode(XPt* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XPt_XER_Decode_aux(XPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XPt arr[5];
} XSoPt;

flag XSoPt_Equal(const XSoPt* pVal1, const XSoPt* pVal2);

#define ERR_XSOPT		85  /*(SIZE(0..5))*/
#define ERR_XSOPT_ELM		78  /**/
flag XSoPt_IsConstraintValid(const XSoPt* pVal, int* pErrCode);

void XSoPt_Initialize(XSoPt* pVal);

#define ERR_XER_ENCODE_XSOPT		90  /**/
#define ERR_XER_ENCODE_XSOPT_ELM		83  /**/
#define XSoPt_REQUIRED_BYTES_FOR_XER_ENCODING       416

flag XSoPt_XER_Encode(const XSoPt* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoPt_XER_Encode_aux(const XSoPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOPT		91  /**/
#define ERR_XER_DECODE_XSOPT_ELM		84  /**/
flag XSoPt_XER_Decode(XSoPt* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoPt_XER_Decode_aux(XSoPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccUint XSemi;


flag XSemi_Equal(const XSemi* pVal1, const XSemi* pVal2);

#define ERR_XSEMI		92  /*(10..MAX)*/
flag XSemi_IsConstraintValid(const XSemi* pVal, int* pErrCode);

void XSemi_Initialize(XSemi* pVal);

#define ERR_XER_ENCODE_XSEMI		97  /**/
#define XSemi_REQUIRED_BYTES_FOR_XER_ENCODING       36

flag XSemi_XER_Encode(const XSemi* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSemi_XER_Encode_aux(const XSemi* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSEMI		98  /**/
flag XSemi_XER_Decode(XSemi* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSemi_XER_Decode_aux(XSemi* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef flag XFlg;


flag XFlg_Equal(const XFlg* pVal1, const XFlg* pVal2);

#define ERR_XFLG		99  /**/
flag XFlg_IsConstraintValid(const XFlg* pVal, int* pErrCode);

void XFlg_Initialize(XFlg* pVal);

#define ERR_XER_ENCODE_XFLG		104  /**/
#define XFlg_REQUIRED_BYTES_FOR_XER_ENCODING       22

flag XFlg_XER_Encode(const XFlg* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XFlg_XER_Encode_aux(const XFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XFLG		105  /**/
flag XFlg_XER_Decode(XFlg* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XFlg_XER_Decode_aux(XFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    XFlg arr[3];
} XSoFlg;

flag XSoFlg_Equal(const XSoFlg* pVal1, const XSoFlg* pVal2);

#define ERR_XSOFLG		120  /*(SIZE(3))*/
#define ERR_XSOFLG_ELM_2		113  /**/
flag XSoFlg_IsConstraintValid(const XSoFlg* pVal, int* pErrCode);

void XSoFlg_Initialize(XSoFlg* pVal);

#define ERR_XER_ENCODE_XSOFLG		125  /**/
#define ERR_XER_ENCODE_XSOFLG_ELM_2		118  /**/
#define XSoFlg_REQUIRED_BYTES_FOR_XER_ENCODING       84

flag XSoFlg_XER_Encode(const XSoFlg* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoFlg_XER_Encode_aux(const XSoFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOFLG		126  /**/
#define ERR_XER_DECODE_XSOFLG_ELM_2		119  /**/
flag XSoFlg_XER_Decode(XSoFlg* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoFlg_XER_Decode_aux(XSoFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1Real XRl;


flag XRl_Equal(const XRl* pVal1, const XRl* pVal2);

#define ERR_XRL		127  /**/
flag XRl_IsConstraintValid(const XRl* pVal, int* pErrCode);

void XRl_Initialize(XRl* pVal);

#define ERR_XER_ENCODE_XRL		132  /**/
#define XRl_REQUIRED_BYTES_FOR_XER_ENCODING       62

flag XRl_XER_Encode(const XRl* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XRl_XER_Encode_aux(const XRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XRL		133  /**/
flag XRl_XER_Decode(XRl* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XRl_XER_Decode_aux(XRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XRl arr[6];
} XSoRl;

flag XSoRl_Equal(const XSoRl* pVal1, const XSoRl* pVal2);

#define ERR_XSORL		148  /*(SIZE(0..6))*/
#define ERR_XSORL_ELM_2		141  /**/
flag XSoRl_IsConstraintValid(const XSoRl* pVal, int* pErrCode);

void XSoRl_Initialize(XSoRl* pVal);

#define ERR_XER_ENCODE_XSORL		153  /**/
#define ERR_XER_ENCODE_XSORL_ELM_2		146  /**/
#define XSoRl_REQUIRED_BYTES_FOR_XER_ENCODING       388

flag XSoRl_XER_Encode(const XSoRl* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoRl_XER_Encode_aux(const XSoRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSORL		154  /**/
#define ERR_XER_DECODE_XSORL_ELM_2		147  /**/
flag XSoRl_XER_Decode(XSoRl* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoRl_XER_Decode_aux(XSoRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef enum {
    xred = 2,
    xgreen = 5,
    xblue = 900
} XCol;

// please use the following macros to avoid breaking code.
#define XCol_xred xred
#define XCol_xgreen xgreen
#define XCol_xblue xblue

flag XCol_Equal(const XCol* pVal1, const XCol* pVal2);

#define ERR_XCOL		155  /*xred | xgreen | xblue*/
flag XCol_IsConstraintValid(const XCol* pVal, int* pErrCode);

void XCol_Initialize(XCol* pVal);

#define ERR_XER_ENCODE_XCOL		160  /**/
#define XCol_REQUIRED_BYTES_FOR_XER_ENCODING       29

flag XCol_XER_Encode(const XCol* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XCol_XER_Encode_aux(const XCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XCOL		161  /**/
flag XCol_XER_Decode(XCol* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XCol_XER_Decode_aux(XCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XCol arr[4];
} XSoCol;

flag XSoCol_Equal(const XSoCol* pVal1, const XSoCol* pVal2);

#define ERR_XSOCOL		176  /*(SIZE(0..4))*/
#define ERR_XSOCOL_ELM_2		169  /**/
flag XSoCol_IsConstraintValid(const XSoCol* pVal, int* pErrCode);

void XSoCol_Initialize(XSoCol* pVal);

#define ERR_XER_ENCODE_XSOCOL		181  /**/
#define ERR_XER_ENCODE_XSOCOL_ELM_2		174  /**/
#define XSoCol_REQUIRED_BYTES_FOR_XER_ENCODING       134

flag XSoCol_XER_Encode(const XSoCol* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoCol_XER_Encode_aux(const XSoCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOCOL		182  /**/
#define ERR_XER_DECODE_XSOCOL_ELM_2		175  /**/
flag XSoCol_XER_Decode(XSoCol* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoCol_XER_Decode_aux(XSoCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef struct {
    byte arr[7];
} XOctF;


flag XOctF_Equal(const XOctF* pVal1, const XOctF* pVal2);

#define ERR_XOCTF		183  /*(SIZE(7))*/
flag XOctF_IsConstraintValid(const XOctF* pVal, int* pErrCode);

void XOctF_Initialize(XOctF* pVal);

#define ERR_XER_ENCODE_XOCTF		188  /**/
#define XOctF_REQUIRED_BYTES_FOR_XER_ENCODING       30

flag XOctF_XER_Encode(const XOctF* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XOctF_XER_Encode_aux(const XOctF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XOCTF		189  /**/
flag XOctF_XER_Decode(XOctF* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XOctF_XER_Decode_aux(XOctF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[40];
} XOctV;


flag XOctV_Equal(const XOctV* pVal1, const XOctV* pVal2);

#define ERR_XOCTV		190  /*(SIZE(0..40))*/
flag XOctV_IsConstraintValid(const XOctV* pVal, int* pErrCode);

void XOctV_Initialize(XOctV* pVal);

#define ERR_XER_ENCODE_XOCTV		195  /**/
#define XOctV_REQUIRED_BYTES_FOR_XER_ENCODING       96

flag XOctV_XER_Encode(const XOctV* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XOctV_XER_Encode_aux(const XOctV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XOCTV		196  /**/
flag XOctV_XER_Decode(XOctV* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XOctV_XER_Decode_aux(XOctV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XOctV arr[5];
} XSoOct;

flag XSoOct_Equal(const XSoOct* pVal1, const XSoOct* pVal2);

#define ERR_XSOOCT		211  /*(SIZE(0..5))*/
#define ERR_XSOOCT_ELM_2		204  /**/
flag XSoOct_IsConstraintValid(const XSoOct* pVal, int* pErrCode);

void XSoOct_Initialize(XSoOct* pVal);

#define ERR_XER_ENCODE_XSOOCT		216  /**/
#define ERR_XER_ENCODE_XSOOCT_ELM_2		209  /**/
#define XSoOct_REQUIRED_BYTES_FOR_XER_ENCODING       498

flag XSoOct_XER_Encode(const XSoOct* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoOct_XER_Encode_aux(const XSoOct* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOOCT		217  /**/
#define ERR_XER_DECODE_XSOOCT_ELM_2		210  /**/
flag XSoOct_XER_Decode(XSoOct* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoOct_XER_Decode_aux(XSoOct* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);

typedef struct {
    byte arr[2];
} XBitF;

flag XBitF_Equal(const XBitF* pVal1, const XBitF* pVal2);

#define ERR_XBITF		218  /*(SIZE(13))*/
flag XBitF_IsConstraintValid(const XBitF* pVal, int* pErrCode);

void XBitF_Initialize(XBitF* pVal);

#define ERR_XER_ENCODE_XBITF		223  /**/
#define XBitF_REQUIRED_BYTES_FOR_XER_ENCODING       120

flag XBitF_XER_Encode(const XBitF* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XBitF_XER_Encode_aux(const XBitF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XBITF		224  /**/
flag XBitF_XER_Decode(XBitF* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XBitF_XER_Decode_aux(XBitF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XBitF arr[5];
} XSoBit;

flag XSoBit_Equal(const XSoBit* pVal1, const XSoBit* pVal2);

#define ERR_XSOBIT		239  /*(SIZE(2..5))*/
#define ERR_XSOBIT_ELM_2		232  /**/
flag XSoBit_IsConstraintValid(const XSoBit* pVal, int* pErrCode);

void XSoBit_Initialize(XSoBit* pVal);

#define ERR_XER_ENCODE_XSOBIT		244  /**/
#define ERR_XER_ENCODE_XSOBIT_ELM_2		237  /**/
#define XSoBit_REQUIRED_BYTES_FOR_XER_ENCODING       618

flag XSoBit_XER_Encode(const XSoBit* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoBit_XER_Encode_aux(const XSoBit* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOBIT		245  /**/
#define ERR_XER_DECODE_XSOBIT_ELM_2		238  /**/
flag XSoBit_XER_Decode(XSoBit* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoBit_XER_Decode_aux(XSoBit* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 50 */
    byte arr[7];
} XBitV;

flag XBitV_Equal(const XBitV* pVal1, const XBitV* pVal2);

#define ERR_XBITV		246  /*(SIZE(1..50))*/
flag XBitV_IsConstraintValid(const XBitV* pVal, int* pErrCode);

void XBitV_Initialize(XBitV* pVal);

#define ERR_XER_ENCODE_XBITV		251  /**/
#define XBitV_REQUIRED_BYTES_FOR_XER_ENCODING       416

flag XBitV_XER_Encode(const XBitV* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XBitV_XER_Encode_aux(const XBitV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XBITV		252  /**/
flag XBitV_XER_Decode(XBitV* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XBitV_XER_Decode_aux(XBitV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef char XStrA[6];

flag XStrA_Equal(const XStrA pVal1, const XStrA pVal2);

#define ERR_XSTRA		253  /*(SIZE(5))(FROM ("A".."Z"))*/
flag XStrA_IsConstraintValid(const XStrA pVal, int* pErrCode);

void XStrA_Initialize(XStrA pVal);

#define ERR_XER_ENCODE_XSTRA		258  /**/
#define XStrA_REQUIRED_BYTES_FOR_XER_ENCODING       21

flag XStrA_XER_Encode(const XStrA pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XStrA_XER_Encode_aux(const XStrA pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSTRA		259  /**/
flag XStrA_XER_Decode(XStrA pVal, ByteStream* pByteStrm, int* pErrCode);
flag XStrA_XER_Decode_aux(XStrA pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef char XStrV[21];

flag XStrV_Equal(const XStrV pVal1, const XStrV pVal2);

#define ERR_XSTRV		260  /*(SIZE(0..20))(FROM ("A".."Z"|"a".."z"|"0".."9"))*/
flag XStrV_IsConstraintValid(const XStrV pVal, int* pErrCode);

void XStrV_Initialize(XStrV pVal);

#define ERR_XER_ENCODE_XSTRV		265  /**/
#define XStrV_REQUIRED_BYTES_FOR_XER_ENCODING       36

flag XStrV_XER_Encode(const XStrV pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XStrV_XER_Encode_aux(const XStrV pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSTRV		266  /**/
flag XStrV_XER_Decode(XStrV pVal, ByteStream* pByteStrm, int* pErrCode);
flag XStrV_XER_Decode_aux(XStrV pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
/*-- XChc --------------------------------------------*/
typedef asn1SccUint XChc_x_a;


typedef enum {
    XChc_NONE,
    x_a_PRESENT,
    x_b_PRESENT,
    x_c_PRESENT,
    x_d_PRESENT,
    x_e_PRESENT,
    x_f_PRESENT
} XChc_selection;

typedef union {
    XChc_x_a x_a;
    flag x_b;
    XOctV x_c;
    XStrV x_d;
    XRl x_e;
    XPt x_f;
} XChc_unchecked_union;

typedef struct {
    XChc_selection kind;

    XChc_unchecked_union u;
} XChc;

flag XChc_x_a_Equal(const XChc_x_a* pVal1, const XChc_x_a* pVal2);

flag XChc_Equal(const XChc* pVal1, const XChc* pVal2);

#define ERR_XCHC_X_A		267  /*(0..3)*/
flag XChc_x_a_IsConstraintValid(const XChc_x_a* pVal, int* pErrCode);

#define ERR_XCHC		330  /**/
#define ERR_XCHC_X_B		274  /**/
#define ERR_XCHC_X_C_2		288  /**/
#define ERR_XCHC_X_D_2		302  /**/
#define ERR_XCHC_X_E_2		316  /**/
#define ERR_XCHC_X_F		323  /**/
flag XChc_IsConstraintValid(const XChc* pVal, int* pErrCode);

void XChc_x_a_Initialize(XChc_x_a* pVal);
void XChc_Initialize(XChc* pVal);

#define ERR_XER_ENCODE_XCHC		335  /**/
#define ERR_XER_ENCODE_XCHC_X_A		272  /**/
#define ERR_XER_ENCODE_XCHC_X_B		279  /**/
#define ERR_XER_ENCODE_XCHC_X_C_2		293  /**/
#define ERR_XER_ENCODE_XCHC_X_D_2		307  /**/
#define ERR_XER_ENCODE_XCHC_X_E_2		321  /**/
#define ERR_XER_ENCODE_XCHC_X_F		328  /**/
#define XChc_REQUIRED_BYTES_FOR_XER_ENCODING       106

flag XChc_XER_Encode(const XChc* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XChc_XER_Encode_aux(const XChc* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XCHC		336  /**/
#define ERR_XER_DECODE_XCHC_X_A		273  /**/
#define ERR_XER_DECODE_XCHC_X_B		280  /**/
#define ERR_XER_DECODE_XCHC_X_C_2		294  /**/
#define ERR_XER_DECODE_XCHC_X_D_2		308  /**/
#define ERR_XER_DECODE_XCHC_X_E_2		322  /**/
#define ERR_XER_DECODE_XCHC_X_F		329  /**/
flag XChc_XER_Decode(XChc* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XChc_XER_Decode_aux(XChc* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XChc arr[4];
} XSoCh;

flag XSoCh_Equal(const XSoCh* pVal1, const XSoCh* pVal2);

#define ERR_XSOCH		344  /*(SIZE(0..4))*/
#define ERR_XSOCH_ELM		337  /**/
flag XSoCh_IsConstraintValid(const XSoCh* pVal, int* pErrCode);

void XSoCh_Initialize(XSoCh* pVal);

#define ERR_XER_ENCODE_XSOCH		349  /**/
#define ERR_XER_ENCODE_XSOCH_ELM		342  /**/
#define XSoCh_REQUIRED_BYTES_FOR_XER_ENCODING       384

flag XSoCh_XER_Encode(const XSoCh* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoCh_XER_Encode_aux(const XSoCh* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOCH		350  /**/
#define ERR_XER_DECODE_XSOCH_ELM		343  /**/
flag XSoCh_XER_Decode(XSoCh* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoCh_XER_Decode_aux(XSoCh* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef Asn1ObjectIdentifier XOid;


flag XOid_Equal(const XOid* pVal1, const XOid* pVal2);

#define ERR_XOID		351  /**/
flag XOid_IsConstraintValid(const XOid* pVal, int* pErrCode);

void XOid_Initialize(XOid* pVal);

#define ERR_XER_ENCODE_XOID		356  /**/
#define XOid_REQUIRED_BYTES_FOR_XER_ENCODING       434

flag XOid_XER_Encode(const XOid* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XOid_XER_Encode_aux(const XOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XOID		357  /**/
flag XOid_XER_Decode(XOid* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XOid_XER_Decode_aux(XOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XOid arr[3];
} XSoOid;

flag XSoOid_Equal(const XSoOid* pVal1, const XSoOid* pVal2);

#define ERR_XSOOID		372  /*(SIZE(0..3))*/
#define ERR_XSOOID_ELM_2		365  /**/
flag XSoOid_IsConstraintValid(const XSoOid* pVal, int* pErrCode);

void XSoOid_Initialize(XSoOid* pVal);

#define ERR_XER_ENCODE_XSOOID		377  /**/
#define ERR_XER_ENCODE_XSOOID_ELM_2		370  /**/
#define XSoOid_REQUIRED_BYTES_FOR_XER_ENCODING       1320

flag XSoOid_XER_Encode(const XSoOid* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoOid_XER_Encode_aux(const XSoOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOOID		378  /**/
#define ERR_XER_DECODE_XSOOID_ELM_2		371  /**/
flag XSoOid_XER_Decode(XSoOid* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoOid_XER_Decode_aux(XSoOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef NullType XNul;


flag XNul_Equal(const XNul* pVal1, const XNul* pVal2);

void XNul_Initialize(XNul* pVal);

#define ERR_XER_ENCODE_XNUL		383  /**/
#define XNul_REQUIRED_BYTES_FOR_XER_ENCODING       14

flag XNul_XER_Encode(const XNul* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XNul_XER_Encode_aux(const XNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XNUL		384  /**/
flag XNul_XER_Decode(XNul* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XNul_XER_Decode_aux(XNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XNul arr[3];
} XSoNul;

flag XSoNul_Equal(const XSoNul* pVal1, const XSoNul* pVal2);

#define ERR_XSONUL		398  /*(SIZE(0..3))*/
#define ERR_XSONUL_ELM		391  /**/
flag XSoNul_IsConstraintValid(const XSoNul* pVal, int* pErrCode);

void XSoNul_Initialize(XSoNul* pVal);

#define ERR_XER_ENCODE_XSONUL		403  /**/
#define ERR_XER_ENCODE_XSONUL_ELM_2		396  /**/
#define XSoNul_REQUIRED_BYTES_FOR_XER_ENCODING       60

flag XSoNul_XER_Encode(const XSoNul* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoNul_XER_Encode_aux(const XSoNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSONUL		404  /**/
#define ERR_XER_DECODE_XSONUL_ELM_2		397  /**/
flag XSoNul_XER_Decode(XSoNul* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoNul_XER_Decode_aux(XSoNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);

typedef asn1SccUint XSoInt_elem;


typedef struct {
    int nCount;
    XSoInt_elem arr[12];
} XSoInt;

flag XSoInt_elem_Equal(const XSoInt_elem* pVal1, const XSoInt_elem* pVal2);

flag XSoInt_Equal(const XSoInt* pVal1, const XSoInt* pVal2);

#define ERR_XSOINT_ELM		405  /*(0..1000)*/
flag XSoInt_elem_IsConstraintValid(const XSoInt_elem* pVal, int* pErrCode);

#define ERR_XSOINT		412  /*(SIZE(0..12))*/
flag XSoInt_IsConstraintValid(const XSoInt* pVal, int* pErrCode);

void XSoInt_elem_Initialize(XSoInt_elem* pVal);
void XSoInt_Initialize(XSoInt* pVal);

#define ERR_XER_ENCODE_XSOINT		417  /**/
#define ERR_XER_ENCODE_XSOINT_ELM		410  /**/
#define XSoInt_REQUIRED_BYTES_FOR_XER_ENCODING       594

flag XSoInt_XER_Encode(const XSoInt* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoInt_XER_Encode_aux(const XSoInt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOINT		418  /**/
#define ERR_XER_DECODE_XSOINT_ELM		411  /**/
flag XSoInt_XER_Decode(XSoInt* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoInt_XER_Decode_aux(XSoInt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
/*-- XRec --------------------------------------------*/
typedef struct {
    unsigned long x_big:1;
    unsigned long x_bf:1;
} XRec_exist;
typedef struct {
    XFlg x_fb;
    XI5 x_i1;
    XBig x_big;
    XSemi x_semi;
    XCol x_col;
    XOctF x_ofx;
    XOctV x_ov;
    XBitF x_bf;
    XBitV x_bv;
    XStrV x_s;
    XStrA x_sa;
    XChc x_ch;
    XSoInt x_so;
    XRl x_r;
    XSoCol x_soc;

    XRec_exist exist;

} XRec;

flag XRec_Equal(const XRec* pVal1, const XRec* pVal2);

#define ERR_XREC		608  /**/
#define ERR_XREC_X_FB_2		426  /**/
#define ERR_XREC_X_I1_2		440  /**/
#define ERR_XREC_X_BIG_2		454  /**/
#define ERR_XREC_X_SEMI_2		468  /**/
#define ERR_XREC_X_COL_2		482  /**/
#define ERR_XREC_X_OFX_2		496  /**/
#define ERR_XREC_X_OV_2		510  /**/
#define ERR_XREC_X_BF_2		524  /**/
#define ERR_XREC_X_BV_2		538  /**/
#define ERR_XREC_X_S_2		552  /**/
#define ERR_XREC_X_SA_2		566  /**/
#define ERR_XREC_X_CH		573  /**/
#define ERR_XREC_X_SO		580  /**/
#define ERR_XREC_X_R_2		594  /**/
#define ERR_XREC_X_SOC		601  /**/
flag XRec_IsConstraintValid(const XRec* pVal, int* pErrCode);

void XRec_Initialize(XRec* pVal);

#define ERR_XER_ENCODE_XREC		613  /**/
#define ERR_XER_ENCODE_XREC_X_FB_2		431  /**/
#define ERR_XER_ENCODE_XREC_X_I1_2		445  /**/
#define ERR_XER_ENCODE_XREC_X_BIG_2		459  /**/
#define ERR_XER_ENCODE_XREC_X_SEMI_2		473  /**/
#define ERR_XER_ENCODE_XREC_X_COL_2		487  /**/
#define ERR_XER_ENCODE_XREC_X_OFX_2		501  /**/
#define ERR_XER_ENCODE_XREC_X_OV_2		515  /**/
#define ERR_XER_ENCODE_XREC_X_BF_2		529  /**/
#define ERR_XER_ENCODE_XREC_X_BV_2		543  /**/
#define ERR_XER_ENCODE_XREC_X_S_2		557  /**/
#define ERR_XER_ENCODE_XREC_X_SA_2		571  /**/
#define ERR_XER_ENCODE_XREC_X_CH		578  /**/
#define ERR_XER_ENCODE_XREC_X_SO		585  /**/
#define ERR_XER_ENCODE_XREC_X_R_2		599  /**/
#define ERR_XER_ENCODE_XREC_X_SOC		606  /**/
#define XRec_REQUIRED_BYTES_FOR_XER_ENCODING       1772

flag XRec_XER_Encode(const XRec* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XRec_XER_Encode_aux(const XRec* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XREC		614  /**/
#define ERR_XER_DECODE_XREC_X_FB_2		432  /**/
#define ERR_XER_DECODE_XREC_X_I1_2		446  /**/
#define ERR_XER_DECODE_XREC_X_BIG_2		460  /**/
#define ERR_XER_DECODE_XREC_X_SEMI_2		474  /**/
#define ERR_XER_DECODE_XREC_X_COL_2		488  /**/
#define ERR_XER_DECODE_XREC_X_OFX_2		502  /**/
#define ERR_XER_DECODE_XREC_X_OV_2		516  /**/
#define ERR_XER_DECODE_XREC_X_BF_2		530  /**/
#define ERR_XER_DECODE_XREC_X_BV_2		544  /**/
#define ERR_XER_DECODE_XREC_X_S_2		558  /**/
#define ERR_XER_DECODE_XREC_X_SA_2		572  /**/
#define ERR_XER_DECODE_XREC_X_CH		579  /**/
#define ERR_XER_DECODE_XREC_X_SO		586  /**/
#define ERR_XER_DECODE_XREC_X_R_2		600  /**/
#define ERR_XER_DECODE_XREC_X_SOC		607  /**/
flag XRec_XER_Decode(XRec* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XRec_XER_Decode_aux(XRec* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XRec arr[3];
} XLog;

flag XLog_Equal(const XLog* pVal1, const XLog* pVal2);

#define ERR_XLOG		622  /*(SIZE(0..3))*/
#define ERR_XLOG_ELM		615  /**/
flag XLog_IsConstraintValid(const XLog* pVal, int* pErrCode);

void XLog_Initialize(XLog* pVal);

#define ERR_XER_ENCODE_XLOG		627  /**/
#define ERR_XER_ENCODE_XLOG_ELM		620  /**/
#define XLog_REQUIRED_BYTES_FOR_XER_ENCODING       5330

flag XLog_XER_Encode(const XLog* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XLog_XER_Encode_aux(const XLog* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XLOG		628  /**/
#define ERR_XER_DECODE_XLOG_ELM		621  /**/
flag XLog_XER_Decode(XLog* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XLog_XER_Decode_aux(XLog* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XSoInt arr[3];
} XSoSo;

flag XSoSo_Equal(const XSoSo* pVal1, const XSoSo* pVal2);

#define ERR_XSOSO		636  /*(SIZE(1..3))*/
#define ERR_XSOSO_ELM		629  /**/
flag XSoSo_IsConstraintValid(const XSoSo* pVal, int* pErrCode);

void XSoSo_Initialize(XSoSo* pVal);

#define ERR_XER_ENCODE_XSOSO		641  /**/
#define ERR_XER_ENCODE_XSOSO_ELM		634  /**/
#define XSoSo_REQUIRED_BYTES_FOR_XER_ENCODING       1798

flag XSoSo_XER_Encode(const XSoSo* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoSo_XER_Encode_aux(const XSoSo* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOSO		642  /**/
#define ERR_XER_DECODE_XSOSO_ELM		635  /**/
flag XSoSo_XER_Decode(XSoSo* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoSo_XER_Decode_aux(XSoSo* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef char XText[61];

flag XText_Equal(const XText pVal1, const XText pVal2);

#define ERR_XTEXT		643  /*(SIZE(0..60))*/
flag XText_IsConstraintValid(const XText pVal, int* pErrCode);

void XText_Initialize(XText pVal);

#define ERR_XER_ENCODE_XTEXT		648  /**/
#define XText_REQUIRED_BYTES_FOR_XER_ENCODING       316

flag XText_XER_Encode(const XText pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XText_XER_Encode_aux(const XText pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XTEXT		649  /**/
flag XText_XER_Decode(XText pVal, ByteStream* pByteStrm, int* pErrCode);
flag XText_XER_Decode_aux(XText pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XText arr[4];
} XSoStr;

flag XSoStr_Equal(const XSoStr* pVal1, const XSoStr* pVal2);

#define ERR_XSOSTR		664  /*(SIZE(0..4))*/
#define ERR_XSOSTR_ELM_2		657  /**/
flag XSoStr_IsConstraintValid(const XSoStr* pVal, int* pErrCode);

void XSoStr_Initialize(XSoStr* pVal);

#define ERR_XER_ENCODE_XSOSTR		669  /**/
#define ERR_XER_ENCODE_XSOSTR_ELM_2		662  /**/
#define XSoStr_REQUIRED_BYTES_FOR_XER_ENCODING       1282

flag XSoStr_XER_Encode(const XSoStr* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoStr_XER_Encode_aux(const XSoStr* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOSTR		670  /**/
#define ERR_XER_DECODE_XSOSTR_ELM_2		663  /**/
flag XSoStr_XER_Decode(XSoStr* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoStr_XER_Decode_aux(XSoStr* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef char XChr[10];

flag XChr_Equal(const XChr pVal1, const XChr pVal2);

#define ERR_XCHR		671  /*(SIZE(3..9))(FROM ("<" | ">" | "&" | """" | "'" | ";" | " " | "-"))*/
flag XChr_IsConstraintValid(const XChr pVal, int* pErrCode);

void XChr_Initialize(XChr pVal);

#define ERR_XER_ENCODE_XCHR		676  /**/
#define XChr_REQUIRED_BYTES_FOR_XER_ENCODING       59

flag XChr_XER_Encode(const XChr pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XChr_XER_Encode_aux(const XChr pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XCHR		677  /**/
flag XChr_XER_Decode(XChr pVal, ByteStream* pByteStrm, int* pErrCode);
flag XChr_XER_Decode_aux(XChr pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef char XNum[10];

flag XNum_Equal(const XNum pVal1, const XNum pVal2);

#define ERR_XNUM		678  /*(SIZE(1..9))*/
flag XNum_IsConstraintValid(const XNum pVal, int* pErrCode);

void XNum_Initialize(XNum pVal);

#define ERR_XER_ENCODE_XNUM		683  /**/
#define XNum_REQUIRED_BYTES_FOR_XER_ENCODING       23

flag XNum_XER_Encode(const XNum pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XNum_XER_Encode_aux(const XNum pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XNUM		684  /**/
flag XNum_XER_Decode(XNum pVal, ByteStream* pByteStrm, int* pErrCode);
flag XNum_XER_Decode_aux(XNum pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[700];
} XOctL;


flag XOctL_Equal(const XOctL* pVal1, const XOctL* pVal2);

#define ERR_XOCTL		685  /*(SIZE(0..700))*/
flag XOctL_IsConstraintValid(const XOctL* pVal, int* pErrCode);

void XOctL_Initialize(XOctL* pVal);

#define ERR_XER_ENCODE_XOCTL		690  /**/
#define XOctL_REQUIRED_BYTES_FOR_XER_ENCODING       1416

flag XOctL_XER_Encode(const XOctL* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XOctL_XER_Encode_aux(const XOctL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XOCTL		691  /**/
flag XOctL_XER_Decode(XOctL* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XOctL_XER_Decode_aux(XOctL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);

typedef struct {
    int nCount; /*Number of bits in the array. Max value is : 2500 */
    byte arr[313];
} XBitL;

flag XBitL_Equal(const XBitL* pVal1, const XBitL* pVal2);

#define ERR_XBITL		692  /*(SIZE(0..2500))*/
flag XBitL_IsConstraintValid(const XBitL* pVal, int* pErrCode);

void XBitL_Initialize(XBitL* pVal);

#define ERR_XER_ENCODE_XBITL		697  /**/
#define XBitL_REQUIRED_BYTES_FOR_XER_ENCODING       20016

flag XBitL_XER_Encode(const XBitL* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XBitL_XER_Encode_aux(const XBitL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XBITL		698  /**/
flag XBitL_XER_Decode(XBitL* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XBitL_XER_Decode_aux(XBitL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef struct {
    int nCount;
    byte arr[3];
} XOctE;


flag XOctE_Equal(const XOctE* pVal1, const XOctE* pVal2);

#define ERR_XOCTE		699  /*(SIZE(2..3))*/
flag XOctE_IsConstraintValid(const XOctE* pVal, int* pErrCode);

void XOctE_Initialize(XOctE* pVal);

#define ERR_XER_ENCODE_XOCTE		704  /**/
#define XOctE_REQUIRED_BYTES_FOR_XER_ENCODING       22

flag XOctE_XER_Encode(const XOctE* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XOctE_XER_Encode_aux(const XOctE* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XOCTE		705  /**/
flag XOctE_XER_Decode(XOctE* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XOctE_XER_Decode_aux(XOctE* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef char XStrL[5201];

flag XStrL_Equal(const XStrL pVal1, const XStrL pVal2);

#define ERR_XSTRL		706  /*(SIZE(0..5200))(FROM ("A".."Z"))*/
flag XStrL_IsConstraintValid(const XStrL pVal, int* pErrCode);

void XStrL_Initialize(XStrL pVal);

#define ERR_XER_ENCODE_XSTRL		711  /**/
#define XStrL_REQUIRED_BYTES_FOR_XER_ENCODING       5216

flag XStrL_XER_Encode(const XStrL pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XStrL_XER_Encode_aux(const XStrL pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSTRL		712  /**/
flag XStrL_XER_Decode(XStrL pVal, ByteStream* pByteStrm, int* pErrCode);
flag XStrL_XER_Decode_aux(XStrL pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccUint XUns;


flag XUns_Equal(const XUns* pVal1, const XUns* pVal2);

#define ERR_XUNS		713  /*(0..MAX)*/
flag XUns_IsConstraintValid(const XUns* pVal, int* pErrCode);

void XUns_Initialize(XUns* pVal);

#define ERR_XER_ENCODE_XUNS		718  /**/
#define XUns_REQUIRED_BYTES_FOR_XER_ENCODING       34

flag XUns_XER_Encode(const XUns* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XUns_XER_Encode_aux(const XUns* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XUNS		719  /**/
flag XUns_XER_Decode(XUns* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XUns_XER_Decode_aux(XUns* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccSint XNeg;


flag XNeg_Equal(const XNeg* pVal1, const XNeg* pVal2);

#define ERR_XNEG		720  /*(MIN..5)*/
flag XNeg_IsConstraintValid(const XNeg* pVal, int* pErrCode);

void XNeg_Initialize(XNeg* pVal);

#define ERR_XER_ENCODE_XNEG		725  /**/
#define XNeg_REQUIRED_BYTES_FOR_XER_ENCODING       34

flag XNeg_XER_Encode(const XNeg* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XNeg_XER_Encode_aux(const XNeg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XNEG		726  /**/
flag XNeg_XER_Decode(XNeg* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XNeg_XER_Decode_aux(XNeg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccUint XOne;


flag XOne_Equal(const XOne* pVal1, const XOne* pVal2);

#define ERR_XONE		727  /*(7..7)*/
flag XOne_IsConstraintValid(const XOne* pVal, int* pErrCode);

void XOne_Initialize(XOne* pVal);

#define ERR_XER_ENCODE_XONE		732  /**/
#define XOne_REQUIRED_BYTES_FOR_XER_ENCODING       34

flag XOne_XER_Encode(const XOne* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XOne_XER_Encode_aux(const XOne* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XONE		733  /**/
flag XOne_XER_Decode(XOne* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XOne_XER_Decode_aux(XOne* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccUint XU64;


flag XU64_Equal(const XU64* pVal1, const XU64* pVal2);

#define ERR_XU64		734  /*(0..18446744073709551615)*/
flag XU64_IsConstraintValid(const XU64* pVal, int* pErrCode);

void XU64_Initialize(XU64* pVal);

#define ERR_XER_ENCODE_XU64		739  /**/
#define XU64_REQUIRED_BYTES_FOR_XER_ENCODING       34

flag XU64_XER_Encode(const XU64* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XU64_XER_Encode_aux(const XU64* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XU64		740  /**/
flag XU64_XER_Decode(XU64* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XU64_XER_Decode_aux(XU64* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1SccSint XI32;


flag XI32_Equal(const XI32* pVal1, const XI32* pVal2);

#define ERR_XI32		741  /*(-2147483648..2147483647)*/
flag XI32_IsConstraintValid(const XI32* pVal, int* pErrCode);

void XI32_Initialize(XI32* pVal);

#define ERR_XER_ENCODE_XI32		746  /**/
#define XI32_REQUIRED_BYTES_FOR_XER_ENCODING       34

flag XI32_XER_Encode(const XI32* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XI32_XER_Encode_aux(const XI32* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XI32		747  /**/
flag XI32_XER_Decode(XI32* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XI32_XER_Decode_aux(XI32* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef asn1Real XRlC;


flag XRlC_Equal(const XRlC* pVal1, const XRlC* pVal2);

#define ERR_XRLC		748  /*(-10.0..10.5)*/
flag XRlC_IsConstraintValid(const XRlC* pVal, int* pErrCode);

void XRlC_Initialize(XRlC* pVal);

#define ERR_XER_ENCODE_XRLC		753  /**/
#define XRlC_REQUIRED_BYTES_FOR_XER_ENCODING       64

flag XRlC_XER_Encode(const XRlC* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XRlC_XER_Encode_aux(const XRlC* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XRLC		754  /**/
flag XRlC_XER_Decode(XRlC* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XRlC_XER_Decode_aux(XRlC* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
typedef enum {
    xe_long1 = -1,
    xe_longlong2 = 2,
    xe_longlonglonglonglong5 = 11,
    xe_longlonglonglonglonglonglonglonglonglonglong11 = 29,
    xe_longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22 = 62
} XEnumL;

// please use the following macros to avoid breaking code.
#define XEnumL_xe_long1 xe_long1
#define XEnumL_xe_longlong2 xe_longlong2
#define XEnumL_xe_longlonglonglonglong5 xe_longlonglonglonglong5
#define XEnumL_xe_longlonglonglonglonglonglonglonglonglonglong11 xe_longlonglonglonglonglonglonglonglonglonglong11
#define XEnumL_xe_longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22 xe_longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22

flag XEnumL_Equal(const XEnumL* pVal1, const XEnumL* pVal2);

#define ERR_XENUML		755  /*xe-long1 | xe-longlong2 | xe-longlonglonglonglong5 | xe-longlonglonglonglonglonglonglonglonglonglong11 | xe-longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22*/
flag XEnumL_IsConstraintValid(const XEnumL* pVal, int* pErrCode);

void XEnumL_Initialize(XEnumL* pVal);

#define ERR_XER_ENCODE_XENUML		760  /**/
#define XEnumL_REQUIRED_BYTES_FOR_XER_ENCODING       207

flag XEnumL_XER_Encode(const XEnumL* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XEnumL_XER_Encode_aux(const XEnumL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XENUML		761  /**/
flag XEnumL_XER_Decode(XEnumL* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XEnumL_XER_Decode_aux(XEnumL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    XEnumL arr[5];
} XSoEn;

flag XSoEn_Equal(const XSoEn* pVal1, const XSoEn* pVal2);

#define ERR_XSOEN		776  /*(SIZE(1..5))*/
#define ERR_XSOEN_ELM_2		769  /**/
flag XSoEn_IsConstraintValid(const XSoEn* pVal, int* pErrCode);

void XSoEn_Initialize(XSoEn* pVal);

#define ERR_XER_ENCODE_XSOEN		781  /**/
#define ERR_XER_ENCODE_XSOEN_ELM_2		774  /**/
#define XSoEn_REQUIRED_BYTES_FOR_XER_ENCODING       1051

flag XSoEn_XER_Encode(const XSoEn* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoEn_XER_Encode_aux(const XSoEn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOEN		782  /**/
#define ERR_XER_DECODE_XSOEN_ELM_2		775  /**/
flag XSoEn_XER_Decode(XSoEn* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoEn_XER_Decode_aux(XSoEn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);

typedef asn1SccSint XSoFix_elem;


typedef struct {
    XSoFix_elem arr[4];
} XSoFix;

flag XSoFix_elem_Equal(const XSoFix_elem* pVal1, const XSoFix_elem* pVal2);

flag XSoFix_Equal(const XSoFix* pVal1, const XSoFix* pVal2);

#define ERR_XSOFIX_ELM		783  /*(-3..300)*/
flag XSoFix_elem_IsConstraintValid(const XSoFix_elem* pVal, int* pErrCode);

#define ERR_XSOFIX		790  /*(SIZE(4))*/
flag XSoFix_IsConstraintValid(const XSoFix* pVal, int* pErrCode);

void XSoFix_elem_Initialize(XSoFix_elem* pVal);
void XSoFix_Initialize(XSoFix* pVal);

#define ERR_XER_ENCODE_XSOFIX		795  /**/
#define ERR_XER_ENCODE_XSOFIX_ELM		788  /**/
#define XSoFix_REQUIRED_BYTES_FOR_XER_ENCODING       210

flag XSoFix_XER_Encode(const XSoFix* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoFix_XER_Encode_aux(const XSoFix* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOFIX		796  /**/
#define ERR_XER_DECODE_XSOFIX_ELM		789  /**/
flag XSoFix_XER_Decode(XSoFix* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoFix_XER_Decode_aux(XSoFix* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


typedef struct {
    int nCount;
    flag arr[6];
} XSoB;

flag XSoB_Equal(const XSoB* pVal1, const XSoB* pVal2);

#define ERR_XSOB		804  /*(SIZE(0..6))*/
#define ERR_XSOB_ELM		797  /**/
flag XSoB_IsConstraintValid(const XSoB* pVal, int* pErrCode);

void XSoB_Initialize(XSoB* pVal);

#define ERR_XER_ENCODE_XSOB		809  /**/
#define ERR_XER_ENCODE_XSOB_ELM		802  /**/
#define XSoB_REQUIRED_BYTES_FOR_XER_ENCODING       98

flag XSoB_XER_Encode(const XSoB* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoB_XER_Encode_aux(const XSoB* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOB		810  /**/
#define ERR_XER_DECODE_XSOB_ELM		803  /**/
flag XSoB_XER_Decode(XSoB* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoB_XER_Decode_aux(XSoB* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
/*-- XCh2 --------------------------------------------*/
typedef asn1SccSint XCh2_y_in;


typedef enum {
    XCh2_NONE,
    y_ch_PRESENT,
    y_en_PRESENT,
    y_so_PRESENT,
    y_nu_PRESENT,
    y_oi_PRESENT,
    y_in_PRESENT,
    y_bo_PRESENT,
    y_lo_PRESENT
} XCh2_selection;

typedef union {
    XChc y_ch;
    XEnumL y_en;
    XSoPt y_so;
    XNul y_nu;
    XOid y_oi;
    XCh2_y_in y_in;
    flag y_bo;
    XSoB y_lo;
} XCh2_unchecked_union;

typedef struct {
    XCh2_selection kind;

    XCh2_unchecked_union u;
} XCh2;

flag XCh2_y_in_Equal(const XCh2_y_in* pVal1, const XCh2_y_in* pVal2);

flag XCh2_Equal(const XCh2* pVal1, const XCh2* pVal2);

#define ERR_XCH2_Y_IN		866  /*(-9..9)*/
flag XCh2_y_in_IsConstraintValid(const XCh2_y_in* pVal, int* pErrCode);

#define ERR_XCH2		887  /**/
#define ERR_XCH2_Y_CH		811  /**/
#define ERR_XCH2_Y_EN_2		825  /**/
#define ERR_XCH2_Y_SO		832  /**/
#define ERR_XCH2_Y_NU		845  /**/
#define ERR_XCH2_Y_OI_2		859  /**/
#define ERR_XCH2_Y_BO		873  /**/
#define ERR_XCH2_Y_LO		880  /**/
flag XCh2_IsConstraintValid(const XCh2* pVal, int* pErrCode);

void XCh2_y_in_Initialize(XCh2_y_in* pVal);
void XCh2_Initialize(XCh2* pVal);

#define ERR_XER_ENCODE_XCH2		892  /**/
#define ERR_XER_ENCODE_XCH2_Y_CH		816  /**/
#define ERR_XER_ENCODE_XCH2_Y_EN_2		830  /**/
#define ERR_XER_ENCODE_XCH2_Y_SO		837  /**/
#define ERR_XER_ENCODE_XCH2_Y_NU_2		850  /**/
#define ERR_XER_ENCODE_XCH2_Y_OI_2		864  /**/
#define ERR_XER_ENCODE_XCH2_Y_IN		871  /**/
#define ERR_XER_ENCODE_XCH2_Y_BO		878  /**/
#define ERR_XER_ENCODE_XCH2_Y_LO		885  /**/
#define XCh2_REQUIRED_BYTES_FOR_XER_ENCODING       448

flag XCh2_XER_Encode(const XCh2* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XCh2_XER_Encode_aux(const XCh2* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XCH2		893  /**/
#define ERR_XER_DECODE_XCH2_Y_CH		817  /**/
#define ERR_XER_DECODE_XCH2_Y_EN_2		831  /**/
#define ERR_XER_DECODE_XCH2_Y_SO		838  /**/
#define ERR_XER_DECODE_XCH2_Y_NU_2		851  /**/
#define ERR_XER_DECODE_XCH2_Y_OI_2		865  /**/
#define ERR_XER_DECODE_XCH2_Y_IN		872  /**/
#define ERR_XER_DECODE_XCH2_Y_BO		879  /**/
#define ERR_XER_DECODE_XCH2_Y_LO		886  /**/
flag XCh2_XER_Decode(XCh2* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XCh2_XER_Decode_aux(XCh2* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
/*-- XMis --------------------------------------------*/
/*-- XMis_m_in --------------------------------------------*/
typedef asn1SccUint XMis_m_in_z_b;

typedef struct {
    int nCount;
    byte arr[5];
} XMis_m_in_z_c;

typedef struct {
    unsigned long z_b:1;
} XMis_m_in_exist;
typedef struct {
    flag z_a;
    XMis_m_in_z_b z_b;
    XMis_m_in_z_c z_c;

    XMis_m_in_exist exist;

} XMis_m_in;

typedef asn1SccUint XMis_m_ino_elem;


typedef struct {
    int nCount;
    XMis_m_ino_elem arr[3];
} XMis_m_ino;
typedef enum {
    xq1 = 0,
    xq2 = 1
} XMis_m_inc;

// please use the following macros to avoid breaking code.
#define XMis_m_inc_xq1 xq1
#define XMis_m_inc_xq2 xq2
typedef struct {
    unsigned long m_oid:1;
    unsigned long m_def:1;
    unsigned long m_db:1;
    unsigned long m_de:1;
    unsigned long m_txt:1;
    unsigned long m_ch:1;
    unsigned long m_in:1;
} XMis_exist;
typedef struct {
    XOid m_oid;
    XNul m_nul;
    XU8 m_def;
    flag m_db;
    XCol m_de;
    XText m_txt;
    XEnumL m_en;
    XCh2 m_ch;
    XSoFix m_fix;
    XSoCh m_sch;
    XUns m_uns;
    XNeg m_neg;
    XNum m_num;
    XMis_m_in m_in;
    XMis_m_ino m_ino;
    XMis_m_inc m_inc;
    XRlC m_rc;
    XOne m_one;

    XMis_exist exist;

} XMis;

flag XMis_m_in_z_b_Equal(const XMis_m_in_z_b* pVal1, const XMis_m_in_z_b* pVal2);

flag XMis_m_in_z_c_Equal(const XMis_m_in_z_c* pVal1, const XMis_m_in_z_c* pVal2);

flag XMis_m_in_Equal(const XMis_m_in* pVal1, const XMis_m_in* pVal2);

flag XMis_m_ino_elem_Equal(const XMis_m_ino_elem* pVal1, const XMis_m_ino_elem* pVal2);

flag XMis_m_ino_Equal(const XMis_m_ino* pVal1, const XMis_m_ino* pVal2);

flag XMis_m_inc_Equal(const XMis_m_inc* pVal1, const XMis_m_inc* pVal2);

flag XMis_Equal(const XMis* pVal1, const XMis* pVal2);

#define ERR_XMIS_M_IN_Z_B		1054  /*(0..70)*/
flag XMis_m_in_z_b_IsConstraintValid(const XMis_m_in_z_b* pVal, int* pErrCode);

#define ERR_XMIS_M_IN_Z_C		1061  /*(SIZE(0..5))*/
flag XMis_m_in_z_c_IsConstraintValid(const XMis_m_in_z_c* pVal, int* pErrCode);

#define ERR_XMIS_M_IN		1068  /**/
#define ERR_XMIS_M_IN_Z_A		1047  /**/
flag XMis_m_in_IsConstraintValid(const XMis_m_in* pVal, int* pErrCode);

#define ERR_XMIS_M_INO_ELM		1075  /*(0..9)*/
flag XMis_m_ino_elem_IsConstraintValid(const XMis_m_ino_elem* pVal, int* pErrCode);

#define ERR_XMIS_M_INO		1082  /*(SIZE(0..3))*/
flag XMis_m_ino_IsConstraintValid(const XMis_m_ino* pVal, int* pErrCode);

#define ERR_XMIS_M_INC		1089  /*xq1 | xq2*/
flag XMis_m_inc_IsConstraintValid(const XMis_m_inc* pVal, int* pErrCode);

#define ERR_XMIS		1124  /**/
#define ERR_XMIS_M_OID_2		901  /**/
#define ERR_XMIS_M_NUL		914  /**/
#define ERR_XMIS_M_DEF_2		928  /**/
#define ERR_XMIS_M_DB		935  /**/
#define ERR_XMIS_M_DE_2		949  /**/
#define ERR_XMIS_M_TXT_2		963  /**/
#define ERR_XMIS_M_EN_2		977  /**/
#define ERR_XMIS_M_CH		984  /**/
#define ERR_XMIS_M_FIX		991  /**/
#define ERR_XMIS_M_SCH		998  /**/
#define ERR_XMIS_M_UNS_2		1012  /**/
#define ERR_XMIS_M_NEG_2		1026  /**/
#define ERR_XMIS_M_NUM_2		1040  /**/
#define ERR_XMIS_M_RC_2		1103  /**/
#define ERR_XMIS_M_ONE_2		1117  /**/
flag XMis_IsConstraintValid(const XMis* pVal, int* pErrCode);

void XMis_m_in_z_b_Initialize(XMis_m_in_z_b* pVal);
void XMis_m_in_z_c_Initialize(XMis_m_in_z_c* pVal);
void XMis_m_in_Initialize(XMis_m_in* pVal);
void XMis_m_ino_elem_Initialize(XMis_m_ino_elem* pVal);
void XMis_m_ino_Initialize(XMis_m_ino* pVal);
void XMis_m_inc_Initialize(XMis_m_inc* pVal);
void XMis_Initialize(XMis* pVal);

#define ERR_XER_ENCODE_XMIS		1129  /**/
#define ERR_XER_ENCODE_XMIS_M_OID_2		906  /**/
#define ERR_XER_ENCODE_XMIS_M_NUL_2		919  /**/
#define ERR_XER_ENCODE_XMIS_M_DEF_2		933  /**/
#define ERR_XER_ENCODE_XMIS_M_DB		940  /**/
#define ERR_XER_ENCODE_XMIS_M_DE_2		954  /**/
#define ERR_XER_ENCODE_XMIS_M_TXT_2		968  /**/
#define ERR_XER_ENCODE_XMIS_M_EN_2		982  /**/
#define ERR_XER_ENCODE_XMIS_M_CH		989  /**/
#define ERR_XER_ENCODE_XMIS_M_FIX		996  /**/
#define ERR_XER_ENCODE_XMIS_M_SCH		1003  /**/
#define ERR_XER_ENCODE_XMIS_M_UNS_2		1017  /**/
#define ERR_XER_ENCODE_XMIS_M_NEG_2		1031  /**/
#define ERR_XER_ENCODE_XMIS_M_NUM_2		1045  /**/
#define ERR_XER_ENCODE_XMIS_M_IN		1073  /**/
#define ERR_XER_ENCODE_XMIS_M_IN_Z_A		1052  /**/
#define ERR_XER_ENCODE_XMIS_M_IN_Z_B		1059  /**/
#define ERR_XER_ENCODE_XMIS_M_IN_Z_C		1066  /**/
#define ERR_XER_ENCODE_XMIS_M_INO		1087  /**/
#define ERR_XER_ENCODE_XMIS_M_INO_ELM		1080  /**/
#define ERR_XER_ENCODE_XMIS_M_INC		1094  /**/
#define ERR_XER_ENCODE_XMIS_M_RC_2		1108  /**/
#define ERR_XER_ENCODE_XMIS_M_ONE_2		1122  /**/
#define XMis_REQUIRED_BYTES_FOR_XER_ENCODING       2606

flag XMis_XER_Encode(const XMis* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XMis_XER_Encode_aux(const XMis* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XMIS		1130  /**/
#define ERR_XER_DECODE_XMIS_M_OID_2		907  /**/
#define ERR_XER_DECODE_XMIS_M_NUL_2		920  /**/
#define ERR_XER_DECODE_XMIS_M_DEF_2		934  /**/
#define ERR_XER_DECODE_XMIS_M_DB		941  /**/
#define ERR_XER_DECODE_XMIS_M_DE_2		955  /**/
#define ERR_XER_DECODE_XMIS_M_TXT_2		969  /**/
#define ERR_XER_DECODE_XMIS_M_EN_2		983  /**/
#define ERR_XER_DECODE_XMIS_M_CH		990  /**/
#define ERR_XER_DECODE_XMIS_M_FIX		997  /**/
#define ERR_XER_DECODE_XMIS_M_SCH		1004  /**/
#define ERR_XER_DECODE_XMIS_M_UNS_2		1018  /**/
#define ERR_XER_DECODE_XMIS_M_NEG_2		1032  /**/
#define ERR_XER_DECODE_XMIS_M_NUM_2		1046  /**/
#define ERR_XER_DECODE_XMIS_M_IN		1074  /**/
#define ERR_XER_DECODE_XMIS_M_IN_Z_A		1053  /**/
#define ERR_XER_DECODE_XMIS_M_IN_Z_B		1060  /**/
#define ERR_XER_DECODE_XMIS_M_IN_Z_C		1067  /**/
#define ERR_XER_DECODE_XMIS_M_INO		1088  /**/
#define ERR_XER_DECODE_XMIS_M_INO_ELM		1081  /**/
#define ERR_XER_DECODE_XMIS_M_INC		1095  /**/
#define ERR_XER_DECODE_XMIS_M_RC_2		1109  /**/
#define ERR_XER_DECODE_XMIS_M_ONE_2		1123  /**/
flag XMis_XER_Decode(XMis* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XMis_XER_Decode_aux(XMis* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);

/*-- XSoIn_elem --------------------------------------------*/
typedef asn1SccUint XSoIn_elem_a;

typedef struct {
    unsigned long b:1;
} XSoIn_elem_exist;
typedef struct {
    XSoIn_elem_a a;
    flag b;

    XSoIn_elem_exist exist;

} XSoIn_elem;

typedef struct {
    int nCount;
    XSoIn_elem arr[4];
} XSoIn;

flag XSoIn_elem_a_Equal(const XSoIn_elem_a* pVal1, const XSoIn_elem_a* pVal2);

flag XSoIn_elem_Equal(const XSoIn_elem* pVal1, const XSoIn_elem* pVal2);

flag XSoIn_Equal(const XSoIn* pVal1, const XSoIn* pVal2);

#define ERR_XSOIN_ELM_A		1131  /*(0..9)*/
flag XSoIn_elem_a_IsConstraintValid(const XSoIn_elem_a* pVal, int* pErrCode);

#define ERR_XSOIN_ELM		1145  /**/
#define ERR_XSOIN_ELM_B		1138  /**/
flag XSoIn_elem_IsConstraintValid(const XSoIn_elem* pVal, int* pErrCode);

#define ERR_XSOIN		1152  /*(SIZE(0..4))*/
flag XSoIn_IsConstraintValid(const XSoIn* pVal, int* pErrCode);

void XSoIn_elem_a_Initialize(XSoIn_elem_a* pVal);
void XSoIn_elem_Initialize(XSoIn_elem* pVal);
void XSoIn_Initialize(XSoIn* pVal);

#define ERR_XER_ENCODE_XSOIN		1157  /**/
#define ERR_XER_ENCODE_XSOIN_ELM		1150  /**/
#define ERR_XER_ENCODE_XSOIN_ELM_A		1136  /**/
#define ERR_XER_ENCODE_XSOIN_ELM_B		1143  /**/
#define XSoIn_REQUIRED_BYTES_FOR_XER_ENCODING       296

flag XSoIn_XER_Encode(const XSoIn* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XSoIn_XER_Encode_aux(const XSoIn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XSOIN		1158  /**/
#define ERR_XER_DECODE_XSOIN_ELM		1151  /**/
#define ERR_XER_DECODE_XSOIN_ELM_A		1137  /**/
#define ERR_XER_DECODE_XSOIN_ELM_B		1144  /**/
flag XSoIn_XER_Decode(XSoIn* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XSoIn_XER_Decode_aux(XSoIn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);
/*-- XTree --------------------------------------------*/


typedef struct {
    int nCount;
    XMis arr[2];
} XTree_t_c;
typedef struct {
    unsigned long t_d:1;
    unsigned long t_e:1;
} XTree_exist;
typedef struct {
    XMis t_a;
    XSoSo t_b;
    XTree_t_c t_c;
    XOctL t_d;
    XBitL t_e;
    XSoOid t_f;
    XSoIn t_g;

    XTree_exist exist;

} XTree;

flag XTree_t_c_Equal(const XTree_t_c* pVal1, const XTree_t_c* pVal2);

flag XTree_Equal(const XTree* pVal1, const XTree* pVal2);

#define ERR_XTREE_T_C		1180  /*(SIZE(0..2))*/
#define ERR_XTREE_T_C_ELM		1173  /**/
flag XTree_t_c_IsConstraintValid(const XTree_t_c* pVal, int* pErrCode);

#define ERR_XTREE		1229  /**/
#define ERR_XTREE_T_A		1159  /**/
#define ERR_XTREE_T_B		1166  /**/
#define ERR_XTREE_T_D_2		1194  /**/
#define ERR_XTREE_T_E_2		1208  /**/
#define ERR_XTREE_T_F		1215  /**/
#define ERR_XTREE_T_G		1222  /**/
flag XTree_IsConstraintValid(const XTree* pVal, int* pErrCode);

void XTree_t_c_Initialize(XTree_t_c* pVal);
void XTree_Initialize(XTree* pVal);

#define ERR_XER_ENCODE_XTREE		1234  /**/
#define ERR_XER_ENCODE_XTREE_T_A		1164  /**/
#define ERR_XER_ENCODE_XTREE_T_B		1171  /**/
#define ERR_XER_ENCODE_XTREE_T_C		1185  /**/
#define ERR_XER_ENCODE_XTREE_T_C_ELM		1178  /**/
#define ERR_XER_ENCODE_XTREE_T_D_2		1199  /**/
#define ERR_XER_ENCODE_XTREE_T_E_2		1213  /**/
#define ERR_XER_ENCODE_XTREE_T_F		1220  /**/
#define ERR_XER_ENCODE_XTREE_T_G		1227  /**/
#define XTree_REQUIRED_BYTES_FOR_XER_ENCODING       32668

flag XTree_XER_Encode(const XTree* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);
flag XTree_XER_Encode_aux(const XTree* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints);


#define ERR_XER_DECODE_XTREE		1235  /**/
#define ERR_XER_DECODE_XTREE_T_A		1165  /**/
#define ERR_XER_DECODE_XTREE_T_B		1172  /**/
#define ERR_XER_DECODE_XTREE_T_C		1186  /**/
#define ERR_XER_DECODE_XTREE_T_C_ELM		1179  /**/
#define ERR_XER_DECODE_XTREE_T_D_2		1200  /**/
#define ERR_XER_DECODE_XTREE_T_E_2		1214  /**/
#define ERR_XER_DECODE_XTREE_T_F		1221  /**/
#define ERR_XER_DECODE_XTREE_T_G		1228  /**/
flag XTree_XER_Decode(XTree* pVal, ByteStream* pByteStrm, int* pErrCode);
flag XTree_XER_Decode_aux(XTree* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode);


/* ================= Encoding/Decoding function prototypes =================
 * These functions are placed at the end of the file to make sure all types
 * have been declared first, in case of parameterized ACN encodings
 * ========================================================================= */



#ifdef  __cplusplus
}

#endif

#endif
