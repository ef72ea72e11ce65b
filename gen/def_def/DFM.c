/*
Code automatically generated by asn1scc tool
*/
#include <limits.h>
#include <string.h>
#include <math.h>

#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"

#include "DFM.h"


flag DHdr_v_Equal(const DHdr_v* pVal1, const DHdr_v* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DHdr_e_Equal(const DHdr_e* pVal1, const DHdr_e* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DHdr_Equal(const DHdr* pVal1, const DHdr* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_v_Equal((&(pVal1->v)), (&(pVal2->v)));

    if (ret) {
        ret = DHdr_e_Equal((&(pVal1->e)), (&(pVal2->e)));

    }

	return ret;

}

flag DHdr_v_IsConstraintValid(const DHdr_v* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_DHDR_V;

	return ret;
}

flag DHdr_e_IsConstraintValid(const DHdr_e* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_DHDR_E;

	return ret;
}

flag DHdr_IsConstraintValid(const DHdr* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_v_IsConstraintValid((&(pVal->v)), pErrCode);
    if (ret) {
        ret = DHdr_e_IsConstraintValid((&(pVal->e)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DHdr_v_Initialize(DHdr_v* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DHdr_e_Initialize(DHdr_e* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DHdr_Initialize(DHdr* pVal)
{
	(void)pVal;


	/*set v */
	DHdr_v_Initialize((&(pVal->v)));
	/*set e */
	DHdr_e_Initialize((&(pVal->e)));
}

flag DHdr_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? DHdr_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
	    if (ret) {
	        /*Encode e */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DHdr_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DHDR_V;
	if (ret) {
	    /*Decode e */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DHDR_E;
	}   /*COVERAGE_IGNORE*/

    return ret && DHdr_IsConstraintValid(pVal, pErrCode);
}


flag P5_Equal(const P5* pVal1, const P5* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P5_IsConstraintValid(const P5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_P5;

	return ret;
}

void P5_Initialize(P5* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P5_ACN_Encode(const P5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, (*(pVal)), 5);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P5_ACN_Decode(P5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, pVal, 5);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P5;

    return ret && P5_IsConstraintValid(pVal, pErrCode);
}


flag QB_s_Equal(const QB_s* pVal1, const QB_s* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag QB_y_Equal(const QB_y* pVal1, const QB_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag QB_Equal(const QB* pVal1, const QB* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = QB_s_Equal((&(pVal1->s)), (&(pVal2->s)));

        if (ret) {
            ret = QB_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag QB_s_IsConstraintValid(const QB_s* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 9);
    *pErrCode = ret ? 0 :  ERR_QB_S;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = P5_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag QB_y_IsConstraintValid(const QB_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_QB_Y;

	return ret;
}

flag QB_IsConstraintValid(const QB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = QB_s_IsConstraintValid((&(pVal->s)), pErrCode);
    if (ret) {
        ret = QB_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void QB_s_Initialize(QB_s* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 9) {
	    pVal->arr[i1] = 0UL;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void QB_y_Initialize(QB_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void QB_Initialize(QB* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set s */
	QB_s_Initialize((&(pVal->s)));
	/*set y */
	QB_y_Initialize((&(pVal->y)));
}


flag DW5_t_Equal(const DW5_t* pVal1, const DW5_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW5_Equal(const DW5* pVal1, const DW5* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW5_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW5_t_IsConstraintValid(const DW5_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW5_T;

	return ret;
}

flag DW5_IsConstraintValid(const DW5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW5_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW5_t_Initialize(DW5_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW5_Initialize(DW5* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DW5_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW5_H_2		71  /**/
#define ERR_ACN_ENCODE_DW5_H		66  /**/
#define ERR_ACN_ENCODE_DW5_H_V		54  /**/
#define ERR_ACN_ENCODE_DW5_H_E		61  /**/

flag DW5_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW5_h_n);

flag DW5_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW5_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW5_h_n */
        Acn_InitDet_ConstSize(pBitStrm, 5, DW5_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW5_B_2		113  /**/
#define ERR_ACN_ENCODE_DW5_B		108  /**/
#define ERR_ACN_ENCODE_DW5_B_X		83  /**/
#define ERR_ACN_ENCODE_DW5_B_S		98  /**/
#define ERR_ACN_ENCODE_DW5_B_S_ELM_2		93  /**/
#define ERR_ACN_ENCODE_DW5_B_Y		103  /**/

flag DW5_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW5_b_n);

flag DW5_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW5_b_n)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
        {
        	ret = P5_ACN_Encode((&(pVal->s.arr[i1])), pBitStrm, pErrCode, FALSE);
        }
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_ConstSize((asn1SccUint)pVal->s.nCount, pBitStrm, 5, DW5_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW5_ACN_Encode(const DW5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW5_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW5_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW5_H_2		73  /**/
#define ERR_ACN_DECODE_DW5_H		67  /**/
#define ERR_ACN_DECODE_DW5_H_V		55  /**/
#define ERR_ACN_DECODE_DW5_H_N		57  /**/
#define ERR_ACN_DECODE_DW5_H_E		62  /**/
flag DW5_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW5_h_n);

flag DW5_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW5_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_H_V;
	if (ret) {
	    /*Decode DW5_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DW5_h_n->value)), 5);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW5_B_2		115  /**/
#define ERR_ACN_DECODE_DW5_B		109  /**/
#define ERR_ACN_DECODE_DW5_B_X		84  /**/
#define ERR_ACN_DECODE_DW5_B_S		99  /**/
#define ERR_ACN_DECODE_DW5_B_S_ELM_2		94  /**/
#define ERR_ACN_DECODE_DW5_B_Y		104  /**/
flag DW5_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW5_b_n);

flag DW5_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW5_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;

	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_B_X;
	if (ret) {
	    /*Decode s */
	    ret = ((DW5_b_n->value<=9));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DW5_b_n->value;
	        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
	        {
	        	ret = P5_ACN_Decode((&(pVal->s.arr[i1])), pBitStrm, pErrCode);
	        }
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DW5_ACN_Decode(DW5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW5_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW5_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW5_IsConstraintValid(pVal, pErrCode);
}


flag DW16_t_Equal(const DW16_t* pVal1, const DW16_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW16_Equal(const DW16* pVal1, const DW16* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW16_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW16_t_IsConstraintValid(const DW16_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW16_T;

	return ret;
}

flag DW16_IsConstraintValid(const DW16* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW16_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW16_t_Initialize(DW16_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW16_Initialize(DW16* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DW16_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW16_H_2		147  /**/
#define ERR_ACN_ENCODE_DW16_H		142  /**/
#define ERR_ACN_ENCODE_DW16_H_V		130  /**/
#define ERR_ACN_ENCODE_DW16_H_E		137  /**/

flag DW16_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16_h_n);

flag DW16_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW16_h_n */
        Acn_InitDet_U16_BE(pBitStrm, DW16_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW16_B_2		189  /**/
#define ERR_ACN_ENCODE_DW16_B		184  /**/
#define ERR_ACN_ENCODE_DW16_B_X		159  /**/
#define ERR_ACN_ENCODE_DW16_B_S		174  /**/
#define ERR_ACN_ENCODE_DW16_B_S_ELM_2		169  /**/
#define ERR_ACN_ENCODE_DW16_B_Y		179  /**/

flag DW16_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16_b_n);

flag DW16_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16_b_n)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
        {
        	ret = P5_ACN_Encode((&(pVal->s.arr[i1])), pBitStrm, pErrCode, FALSE);
        }
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_U16_BE((asn1SccUint)pVal->s.nCount, pBitStrm, DW16_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW16_ACN_Encode(const DW16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW16_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW16_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW16_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW16_H_2		149  /**/
#define ERR_ACN_DECODE_DW16_H		143  /**/
#define ERR_ACN_DECODE_DW16_H_V		131  /**/
#define ERR_ACN_DECODE_DW16_H_N		133  /**/
#define ERR_ACN_DECODE_DW16_H_E		138  /**/
flag DW16_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16_h_n);

flag DW16_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_H_V;
	if (ret) {
	    /*Decode DW16_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(DW16_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW16_B_2		191  /**/
#define ERR_ACN_DECODE_DW16_B		185  /**/
#define ERR_ACN_DECODE_DW16_B_X		160  /**/
#define ERR_ACN_DECODE_DW16_B_S		175  /**/
#define ERR_ACN_DECODE_DW16_B_S_ELM_2		170  /**/
#define ERR_ACN_DECODE_DW16_B_Y		180  /**/
flag DW16_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16_b_n);

flag DW16_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;

	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_B_X;
	if (ret) {
	    /*Decode s */
	    ret = ((DW16_b_n->value<=9));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DW16_b_n->value;
	        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
	        {
	        	ret = P5_ACN_Decode((&(pVal->s.arr[i1])), pBitStrm, pErrCode);
	        }
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DW16_ACN_Decode(DW16* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW16_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW16_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW16_IsConstraintValid(pVal, pErrCode);
}


flag DW64_t_Equal(const DW64_t* pVal1, const DW64_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW64_Equal(const DW64* pVal1, const DW64* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW64_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW64_t_IsConstraintValid(const DW64_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW64_T;

	return ret;
}

flag DW64_IsConstraintValid(const DW64* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW64_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW64_t_Initialize(DW64_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW64_Initialize(DW64* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DW64_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW64_H_2		223  /**/
#define ERR_ACN_ENCODE_DW64_H		218  /**/
#define ERR_ACN_ENCODE_DW64_H_V		206  /**/
#define ERR_ACN_ENCODE_DW64_H_E		213  /**/

flag DW64_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64_h_n);

flag DW64_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW64_h_n */
        Acn_InitDet_U64_BE(pBitStrm, DW64_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW64_B_2		265  /**/
#define ERR_ACN_ENCODE_DW64_B		260  /**/
#define ERR_ACN_ENCODE_DW64_B_X		235  /**/
#define ERR_ACN_ENCODE_DW64_B_S		250  /**/
#define ERR_ACN_ENCODE_DW64_B_S_ELM_2		245  /**/
#define ERR_ACN_ENCODE_DW64_B_Y		255  /**/

flag DW64_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64_b_n);

flag DW64_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64_b_n)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
        {
        	ret = P5_ACN_Encode((&(pVal->s.arr[i1])), pBitStrm, pErrCode, FALSE);
        }
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_U64_BE((asn1SccUint)pVal->s.nCount, pBitStrm, DW64_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW64_ACN_Encode(const DW64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW64_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW64_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW64_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW64_H_2		225  /**/
#define ERR_ACN_DECODE_DW64_H		219  /**/
#define ERR_ACN_DECODE_DW64_H_V		207  /**/
#define ERR_ACN_DECODE_DW64_H_N		209  /**/
#define ERR_ACN_DECODE_DW64_H_E		214  /**/
flag DW64_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64_h_n);

flag DW64_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_H_V;
	if (ret) {
	    /*Decode DW64_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, (&(DW64_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW64_B_2		267  /**/
#define ERR_ACN_DECODE_DW64_B		261  /**/
#define ERR_ACN_DECODE_DW64_B_X		236  /**/
#define ERR_ACN_DECODE_DW64_B_S		251  /**/
#define ERR_ACN_DECODE_DW64_B_S_ELM_2		246  /**/
#define ERR_ACN_DECODE_DW64_B_Y		256  /**/
flag DW64_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64_b_n);

flag DW64_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;

	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_B_X;
	if (ret) {
	    /*Decode s */
	    ret = ((DW64_b_n->value<=9));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DW64_b_n->value;
	        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
	        {
	        	ret = P5_ACN_Decode((&(pVal->s.arr[i1])), pBitStrm, pErrCode);
	        }
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DW64_ACN_Decode(DW64* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW64_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW64_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW64_IsConstraintValid(pVal, pErrCode);
}


flag DI11_t_Equal(const DI11_t* pVal1, const DI11_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI11_Equal(const DI11* pVal1, const DI11* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI11_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI11_t_IsConstraintValid(const DI11_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI11_T;

	return ret;
}

flag DI11_IsConstraintValid(const DI11* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI11_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI11_t_Initialize(DI11_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI11_Initialize(DI11* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DI11_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DI11_H_2		299  /**/
#define ERR_ACN_ENCODE_DI11_H		294  /**/
#define ERR_ACN_ENCODE_DI11_H_V		282  /**/
#define ERR_ACN_ENCODE_DI11_H_E		289  /**/

flag DI11_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI11_h_n);

flag DI11_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI11_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DI11_h_n */
        Acn_InitDet_TwosComplement_ConstSize(pBitStrm, 11, DI11_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DI11_B_2		341  /**/
#define ERR_ACN_ENCODE_DI11_B		336  /**/
#define ERR_ACN_ENCODE_DI11_B_X		311  /**/
#define ERR_ACN_ENCODE_DI11_B_S		326  /**/
#define ERR_ACN_ENCODE_DI11_B_S_ELM_2		321  /**/
#define ERR_ACN_ENCODE_DI11_B_Y		331  /**/

flag DI11_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI11_b_n);

flag DI11_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI11_b_n)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
        {
        	ret = P5_ACN_Encode((&(pVal->s.arr[i1])), pBitStrm, pErrCode, FALSE);
        }
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_TwosComplement_ConstSize((asn1SccUint)pVal->s.nCount, pBitStrm, 11, DI11_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DI11_ACN_Encode(const DI11* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI11_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DI11_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DI11_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DI11_H_2		301  /**/
#define ERR_ACN_DECODE_DI11_H		295  /**/
#define ERR_ACN_DECODE_DI11_H_V		283  /**/
#define ERR_ACN_DECODE_DI11_H_N		285  /**/
#define ERR_ACN_DECODE_DI11_H_E		290  /**/
flag DI11_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI11_h_n);

flag DI11_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI11_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_H_V;
	if (ret) {
	    /*Decode DI11_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(DI11_h_n->value)), 11);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DI11_B_2		343  /**/
#define ERR_ACN_DECODE_DI11_B		337  /**/
#define ERR_ACN_DECODE_DI11_B_X		312  /**/
#define ERR_ACN_DECODE_DI11_B_S		327  /**/
#define ERR_ACN_DECODE_DI11_B_S_ELM_2		322  /**/
#define ERR_ACN_DECODE_DI11_B_Y		332  /**/
flag DI11_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI11_b_n);

flag DI11_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI11_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;

	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_B_X;
	if (ret) {
	    /*Decode s */
	    ret = ((0<=DI11_b_n->value) && (DI11_b_n->value<=9));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DI11_b_n->value;
	        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
	        {
	        	ret = P5_ACN_Decode((&(pVal->s.arr[i1])), pBitStrm, pErrCode);
	        }
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DI11_ACN_Decode(DI11* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DI11_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_M;
	    if (ret) {
	        /*Decode b */
	        ret = DI11_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI11_IsConstraintValid(pVal, pErrCode);
}


flag CQ_a_Equal(const CQ_a* pVal1, const CQ_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CQ_Equal(const CQ* pVal1, const CQ* pVal2)
{
	flag ret=TRUE;

    ret = CQ_a_Equal((&(pVal1->a)), (&(pVal2->a)));

    if (ret) {
        ret = (pVal1->b == pVal2->b);

        if (ret) {
            ret = (pVal1->exist.c == pVal2->exist.c);
            if (ret && pVal1->exist.c) {
            	ret = (pVal1->c == pVal2->c);
            }

        }

    }

	return ret;

}

flag CQ_a_IsConstraintValid(const CQ_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CQ_A;

	return ret;
}

flag CQ_IsConstraintValid(const CQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CQ_a_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        if (pVal->exist.c) {
        	ret = P5_IsConstraintValid((&(pVal->c)), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CQ_a_Initialize(CQ_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CQ_Initialize(CQ* pVal)
{
	(void)pVal;


	/*set a */
	CQ_a_Initialize((&(pVal->a)));
	/*set b */
	pVal->b = FALSE;
	/*set c */
	pVal->exist.c = 1;
	P5_Initialize((&(pVal->c)));
}

flag CQ_ACN_Encode(const CQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? CQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.c);
	    if (ret) {
	        /*Encode a */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a, 0, 7);
	        if (ret) {
	            /*Encode b */
	            BitStream_AppendBit(pBitStrm,pVal->b);
	            if (ret) {
	                /*Encode c */
	                if (pVal->exist.c) {
	                	ret = P5_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
	                }
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CQ_ACN_Decode(CQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag c_exist;

	ret = BitStream_ReadBit(pBitStrm, &c_exist);
	pVal->exist.c = c_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CQ;
	if (ret) {
	    /*Decode a */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_CQ_A;
	    if (ret) {
	        /*Decode b */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_CQ_B;
	        if (ret) {
	            /*Decode c */
	            if (pVal->exist.c) {
	            	ret = P5_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && CQ_IsConstraintValid(pVal, pErrCode);
}


flag DCoQ_t_Equal(const DCoQ_t* pVal1, const DCoQ_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DCoQ_Equal(const DCoQ* pVal1, const DCoQ* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = CQ_Equal((&(pVal1->p)), (&(pVal2->p)));

        if (ret) {
            ret = DCoQ_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DCoQ_t_IsConstraintValid(const DCoQ_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCOQ_T;

	return ret;
}

flag DCoQ_IsConstraintValid(const DCoQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = CQ_IsConstraintValid((&(pVal->p)), pErrCode);
        if (ret) {
            ret = DCoQ_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DCoQ_t_Initialize(DCoQ_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DCoQ_Initialize(DCoQ* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set p */
	CQ_Initialize((&(pVal->p)));
	/*set t */
	DCoQ_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DCOQ_H_2		400  /**/
#define ERR_ACN_ENCODE_DCOQ_H		395  /**/
#define ERR_ACN_ENCODE_DCOQ_H_V		383  /**/
#define ERR_ACN_ENCODE_DCOQ_H_E		390  /**/

flag DCoQ_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoQ_h_len);

flag DCoQ_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoQ_h_len)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DCoQ_h_len */
        Acn_InitDet_ConstSize(pBitStrm, 6, DCoQ_h_len);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DCOQ_P_2		432  /**/
#define ERR_ACN_ENCODE_DCOQ_P		427  /**/
#define ERR_ACN_ENCODE_DCOQ_P_A		407  /**/
#define ERR_ACN_ENCODE_DCOQ_P_B		412  /**/
#define ERR_ACN_ENCODE_DCOQ_P_C_2		422  /**/

flag DCoQ_p_ACN_Encode(const CQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoQ_p_len);

flag DCoQ_p_ACN_Encode(const CQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoQ_p_len)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    {
        AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
        BitStream_AppendBit(pBitStrm,pVal->exist.c);
        if (ret) {
            /*Encode a */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a, 0, 7);
            if (ret) {
                /*Encode b */
                BitStream_AppendBit(pBitStrm,pVal->b);
                if (ret) {
                    /*Encode c */
                    if (pVal->exist.c) {
                    	ret = P5_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
                    }
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
        if (ret) {
            AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
            /* an octet string holds whole octets */
            while (Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) % 8 != 0) {
                BitStream_AppendBitZero(pBitStrm);
                acn_data_end = Acn_BitStream_GetPos(pBitStrm);
            }
            asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
            ret = Acn_PatchDet_ConstSize((asn1SccUint)acn_nCount, pBitStrm, 6, DCoQ_p_len, pErrCode);
            *pErrCode = ERR_ACN_ENCODE_DCOQ_P_2;
            if (!ret) return FALSE;
        }
    }


    return ret;
}

flag DCoQ_ACN_Encode(const DCoQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef len;
    *pErrCode = 0;
	ret = bCheckConstraints ? DCoQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DCoQ_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &len);
	    if (ret) {
	        /*Encode p */
	        ret = DCoQ_p_ACN_Encode((&(pVal->p)), pBitStrm, pErrCode, FALSE, &len);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DCOQ_H_2		402  /**/
#define ERR_ACN_DECODE_DCOQ_H		396  /**/
#define ERR_ACN_DECODE_DCOQ_H_V		384  /**/
#define ERR_ACN_DECODE_DCOQ_H_LEN		386  /**/
#define ERR_ACN_DECODE_DCOQ_H_E		391  /**/
flag DCoQ_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoQ_h_len);

flag DCoQ_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoQ_h_len)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_H_V;
	if (ret) {
	    /*Decode DCoQ_h_len */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DCoQ_h_len->value)), 6);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_H_LEN;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DCOQ_P_2		434  /**/
#define ERR_ACN_DECODE_DCOQ_P		428  /**/
#define ERR_ACN_DECODE_DCOQ_P_A		408  /**/
#define ERR_ACN_DECODE_DCOQ_P_B		413  /**/
#define ERR_ACN_DECODE_DCOQ_P_C_2		423  /**/
flag DCoQ_p_ACN_Decode(CQ* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoQ_p_len);

flag DCoQ_p_ACN_Decode(CQ* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoQ_p_len)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag c_exist;

	{
	    AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
	    ret = DCoQ_p_len->value <= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end) / 8;
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_2;
	    if (ret) {
	        long acn_saved_count = pBitStrm->count;
	        long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)DCoQ_p_len->value * 8L;
	        pBitStrm->count = (acn_end_bits + 7) / 8;
	        ret = BitStream_ReadBit(pBitStrm, &c_exist);
	        pVal->exist.c = c_exist == 0 ? 0 : 1;
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P;
	        if (ret) {
	            /*Decode a */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a)), 0, 7);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_A;
	            if (ret) {
	                /*Decode b */
	                ret = BitStream_ReadBit(pBitStrm, (&(pVal->b)));
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_B;
	                if (ret) {
	                    /*Decode c */
	                    if (pVal->exist.c) {
	                    	ret = P5_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	                    }
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        pBitStrm->count = acn_saved_count;
	        if (ret) {
	            ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit <= acn_end_bits;
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_2;
	            pBitStrm->currentByte = acn_end_bits / 8;
	            pBitStrm->currentBit = (int)(acn_end_bits % 8);
	        }
	    }
	}

    return ret;
}

flag DCoQ_ACN_Decode(DCoQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef len;

	/*Decode h */
	ret = DCoQ_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &len);
	if (ret) {
	    /*Decode p */
	    ret = DCoQ_p_ACN_Decode((&(pVal->p)), pBitStrm, pErrCode, &len);
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DCoQ_IsConstraintValid(pVal, pErrCode);
}


flag DCoB_t_Equal(const DCoB_t* pVal1, const DCoB_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DCoB_Equal(const DCoB* pVal1, const DCoB* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = CQ_Equal((&(pVal1->p)), (&(pVal2->p)));

        if (ret) {
            ret = DCoB_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DCoB_t_IsConstraintValid(const DCoB_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCOB_T;

	return ret;
}

flag DCoB_IsConstraintValid(const DCoB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = CQ_IsConstraintValid((&(pVal->p)), pErrCode);
        if (ret) {
            ret = DCoB_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DCoB_t_Initialize(DCoB_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DCoB_Initialize(DCoB* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set p */
	CQ_Initialize((&(pVal->p)));
	/*set t */
	DCoB_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DCOB_H_2		466  /**/
#define ERR_ACN_ENCODE_DCOB_H		461  /**/
#define ERR_ACN_ENCODE_DCOB_H_V		449  /**/
#define ERR_ACN_ENCODE_DCOB_H_E		456  /**/

flag DCoB_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoB_h_len);

flag DCoB_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoB_h_len)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DCoB_h_len */
        Acn_InitDet_ConstSize(pBitStrm, 6, DCoB_h_len);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DCOB_P_2		498  /**/
#define ERR_ACN_ENCODE_DCOB_P		493  /**/
#define ERR_ACN_ENCODE_DCOB_P_A		473  /**/
#define ERR_ACN_ENCODE_DCOB_P_B		478  /**/
#define ERR_ACN_ENCODE_DCOB_P_C_2		488  /**/

flag DCoB_p_ACN_Encode(const CQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoB_p_len);

flag DCoB_p_ACN_Encode(const CQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCoB_p_len)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    {
        AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
        BitStream_AppendBit(pBitStrm,pVal->exist.c);
        if (ret) {
            /*Encode a */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a, 0, 7);
            if (ret) {
                /*Encode b */
                BitStream_AppendBit(pBitStrm,pVal->b);
                if (ret) {
                    /*Encode c */
                    if (pVal->exist.c) {
                    	ret = P5_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
                    }
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
        if (ret) {
            AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
            asn1SccUint acn_nCount = Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end);
            ret = Acn_PatchDet_ConstSize((asn1SccUint)acn_nCount, pBitStrm, 6, DCoB_p_len, pErrCode);
            *pErrCode = ERR_ACN_ENCODE_DCOB_P_2;
            if (!ret) return FALSE;
        }
    }


    return ret;
}

flag DCoB_ACN_Encode(const DCoB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef len;
    *pErrCode = 0;
	ret = bCheckConstraints ? DCoB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DCoB_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &len);
	    if (ret) {
	        /*Encode p */
	        ret = DCoB_p_ACN_Encode((&(pVal->p)), pBitStrm, pErrCode, FALSE, &len);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DCOB_H_2		468  /**/
#define ERR_ACN_DECODE_DCOB_H		462  /**/
#define ERR_ACN_DECODE_DCOB_H_V		450  /**/
#define ERR_ACN_DECODE_DCOB_H_LEN		452  /**/
#define ERR_ACN_DECODE_DCOB_H_E		457  /**/
flag DCoB_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoB_h_len);

flag DCoB_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoB_h_len)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_H_V;
	if (ret) {
	    /*Decode DCoB_h_len */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DCoB_h_len->value)), 6);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_H_LEN;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DCOB_P_2		500  /**/
#define ERR_ACN_DECODE_DCOB_P		494  /**/
#define ERR_ACN_DECODE_DCOB_P_A		474  /**/
#define ERR_ACN_DECODE_DCOB_P_B		479  /**/
#define ERR_ACN_DECODE_DCOB_P_C_2		489  /**/
flag DCoB_p_ACN_Decode(CQ* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoB_p_len);

flag DCoB_p_ACN_Decode(CQ* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCoB_p_len)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag c_exist;

	{
	    AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
	    ret = DCoB_p_len->value <= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_P_2;
	    if (ret) {
	        long acn_saved_count = pBitStrm->count;
	        long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)DCoB_p_len->value;
	        pBitStrm->count = (acn_end_bits + 7) / 8;
	        ret = BitStream_ReadBit(pBitStrm, &c_exist);
	        pVal->exist.c = c_exist == 0 ? 0 : 1;
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_P;
	        if (ret) {
	            /*Decode a */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a)), 0, 7);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_P_A;
	            if (ret) {
	                /*Decode b */
	                ret = BitStream_ReadBit(pBitStrm, (&(pVal->b)));
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_P_B;
	                if (ret) {
	                    /*Decode c */
	                    if (pVal->exist.c) {
	                    	ret = P5_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	                    }
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        pBitStrm->count = acn_saved_count;
	        if (ret) {
	            ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit <= acn_end_bits;
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_P_2;
	            pBitStrm->currentByte = acn_end_bits / 8;
	            pBitStrm->currentBit = (int)(acn_end_bits % 8);
	        }
	    }
	}

    return ret;
}

flag DCoB_ACN_Decode(DCoB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef len;

	/*Decode h */
	ret = DCoB_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &len);
	if (ret) {
	    /*Decode p */
	    ret = DCoB_p_ACN_Decode((&(pVal->p)), pBitStrm, pErrCode, &len);
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DCoB_IsConstraintValid(pVal, pErrCode);
}


flag P8_Equal(const P8* pVal1, const P8* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P8_IsConstraintValid(const P8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 255UL);
    *pErrCode = ret ? 0 :  ERR_P8;

	return ret;
}

void P8_Initialize(P8* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P8_ACN_Encode(const P8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P8_ACN_Decode(P8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P8;

    return ret && P8_IsConstraintValid(pVal, pErrCode);
}


flag PB_x_Equal(const PB_x* pVal1, const PB_x* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag PB_Equal(const PB* pVal1, const PB* pVal2)
{
	flag ret=TRUE;

    ret = PB_x_Equal((&(pVal1->x)), (&(pVal2->x)));

    if (ret) {
        ret = (pVal1->exist.o == pVal2->exist.o);
        if (ret && pVal1->exist.o) {
        	ret = (pVal1->o == pVal2->o);
        }

        if (ret) {
            ret = (pVal1->z == pVal2->z);

        }

    }

	return ret;

}

flag PB_x_IsConstraintValid(const PB_x* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_PB_X;

	return ret;
}

flag PB_IsConstraintValid(const PB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = PB_x_IsConstraintValid((&(pVal->x)), pErrCode);
    if (ret) {
        if (pVal->exist.o) {
        	ret = P8_IsConstraintValid((&(pVal->o)), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void PB_x_Initialize(PB_x* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void PB_Initialize(PB* pVal)
{
	(void)pVal;


	/*set x */
	PB_x_Initialize((&(pVal->x)));
	/*set o */
	pVal->exist.o = 1;
	P8_Initialize((&(pVal->o)));
	/*set z */
	pVal->z = FALSE;
}


flag DPrB_t_Equal(const DPrB_t* pVal1, const DPrB_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DPrB_Equal(const DPrB* pVal1, const DPrB* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DPrB_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DPrB_t_IsConstraintValid(const DPrB_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DPRB_T;

	return ret;
}

flag DPrB_IsConstraintValid(const DPrB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DPrB_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DPrB_t_Initialize(DPrB_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DPrB_Initialize(DPrB* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PB_Initialize((&(pVal->b)));
	/*set t */
	DPrB_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DPRB_H_2		560  /**/
#define ERR_ACN_ENCODE_DPRB_H		555  /**/
#define ERR_ACN_ENCODE_DPRB_H_V		543  /**/
#define ERR_ACN_ENCODE_DPRB_H_E		550  /**/

flag DPrB_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DPrB_h_f);

flag DPrB_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DPrB_h_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DPrB_h_f */
        Acn_InitDet_BOOL1(pBitStrm, DPrB_h_f);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DPRB_B_2		595  /**/
#define ERR_ACN_ENCODE_DPRB_B		590  /**/
#define ERR_ACN_ENCODE_DPRB_B_X		572  /**/
#define ERR_ACN_ENCODE_DPRB_B_O		577  /**/
#define ERR_ACN_ENCODE_DPRB_B_Z		585  /**/

flag DPrB_b_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DPrB_b_f);

flag DPrB_b_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DPrB_b_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->x, 0, 7);
    if (ret) {
        /*Encode o */
        if (pVal->exist.o) {
        	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->o);
        }
        if (ret) {
            /*Encode z */
            BitStream_AppendBit(pBitStrm,pVal->z);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_BOOL1((asn1SccUint)(pVal->exist.o == 1), pBitStrm, DPrB_b_f, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DPrB_ACN_Encode(const DPrB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef f;
    *pErrCode = 0;
	ret = bCheckConstraints ? DPrB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DPrB_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &f);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DPrB_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &f);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DPRB_H_2		562  /**/
#define ERR_ACN_DECODE_DPRB_H		556  /**/
#define ERR_ACN_DECODE_DPRB_H_V		544  /**/
#define ERR_ACN_DECODE_DPRB_H_F		546  /**/
#define ERR_ACN_DECODE_DPRB_H_E		551  /**/
flag DPrB_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DPrB_h_f);

flag DPrB_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DPrB_h_f)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag DPrB_h_f_tmp;

	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_H_V;
	if (ret) {
	    /*Decode DPrB_h_f */
	    ret = BitStream_ReadBit(pBitStrm, (&(DPrB_h_f_tmp)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_H_F;
	    DPrB_h_f->value = (asn1SccUint)DPrB_h_f_tmp;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DPRB_B_2		597  /**/
#define ERR_ACN_DECODE_DPRB_B		591  /**/
#define ERR_ACN_DECODE_DPRB_B_X		573  /**/
#define ERR_ACN_DECODE_DPRB_B_O		578  /**/
#define ERR_ACN_DECODE_DPRB_B_Z		586  /**/
flag DPrB_b_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DPrB_b_f);

flag DPrB_b_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DPrB_b_f)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->x)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_B_X;
	if (ret) {
	    pVal->exist.o = DPrB_b_f->value ? 1 : 0;
	    /*Decode o */
	    if (pVal->exist.o) {
	    	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->o)));
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_B_O;
	    }
	    if (ret) {
	        /*Decode z */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->z)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_B_Z;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DPrB_ACN_Decode(DPrB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef f;

	/*Decode h */
	ret = DPrB_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &f);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_M;
	    if (ret) {
	        /*Decode b */
	        ret = DPrB_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &f);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DPrB_IsConstraintValid(pVal, pErrCode);
}


flag DShP_t_Equal(const DShP_t* pVal1, const DShP_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DShP_Equal(const DShP* pVal1, const DShP* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = PB_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = PB_Equal((&(pVal1->c)), (&(pVal2->c)));

            if (ret) {
                ret = DShP_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DShP_t_IsConstraintValid(const DShP_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSHP_T;

	return ret;
}

flag DShP_IsConstraintValid(const DShP* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = PB_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = DShP_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DShP_t_Initialize(DShP_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DShP_Initialize(DShP* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	PB_Initialize((&(pVal->b)));
	/*set c */
	PB_Initialize((&(pVal->c)));
	/*set t */
	DShP_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DSHP_H_2		629  /**/
#define ERR_ACN_ENCODE_DSHP_H		624  /**/
#define ERR_ACN_ENCODE_DSHP_H_V		612  /**/
#define ERR_ACN_ENCODE_DSHP_H_E		619  /**/

flag DShP_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShP_h_f);

flag DShP_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShP_h_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DShP_h_f */
        Acn_InitDet_BOOL1(pBitStrm, DShP_h_f);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DSHP_B_2		659  /**/
#define ERR_ACN_ENCODE_DSHP_B		654  /**/
#define ERR_ACN_ENCODE_DSHP_B_X		636  /**/
#define ERR_ACN_ENCODE_DSHP_B_O		641  /**/
#define ERR_ACN_ENCODE_DSHP_B_Z		649  /**/

flag DShP_b_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShP_b_f);

flag DShP_b_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShP_b_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->x, 0, 7);
    if (ret) {
        /*Encode o */
        if (pVal->exist.o) {
        	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->o);
        }
        if (ret) {
            /*Encode z */
            BitStream_AppendBit(pBitStrm,pVal->z);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_BOOL1((asn1SccUint)(pVal->exist.o == 1), pBitStrm, DShP_b_f, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

#define ERR_ACN_ENCODE_DSHP_C_2		689  /**/
#define ERR_ACN_ENCODE_DSHP_C		684  /**/
#define ERR_ACN_ENCODE_DSHP_C_X		666  /**/
#define ERR_ACN_ENCODE_DSHP_C_O		671  /**/
#define ERR_ACN_ENCODE_DSHP_C_Z		679  /**/

flag DShP_c_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShP_c_f);

flag DShP_c_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShP_c_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->x, 0, 7);
    if (ret) {
        /*Encode o */
        if (pVal->exist.o) {
        	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->o);
        }
        if (ret) {
            /*Encode z */
            BitStream_AppendBit(pBitStrm,pVal->z);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_BOOL1((asn1SccUint)(pVal->exist.o == 1), pBitStrm, DShP_c_f, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DShP_ACN_Encode(const DShP* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef f;
    *pErrCode = 0;
	ret = bCheckConstraints ? DShP_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DShP_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &f);
	    if (ret) {
	        /*Encode b */
	        ret = DShP_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &f);
	        if (ret) {
	            /*Encode c */
	            ret = DShP_c_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE, &f);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DSHP_H_2		631  /**/
#define ERR_ACN_DECODE_DSHP_H		625  /**/
#define ERR_ACN_DECODE_DSHP_H_V		613  /**/
#define ERR_ACN_DECODE_DSHP_H_F		615  /**/
#define ERR_ACN_DECODE_DSHP_H_E		620  /**/
flag DShP_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShP_h_f);

flag DShP_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShP_h_f)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag DShP_h_f_tmp;

	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_H_V;
	if (ret) {
	    /*Decode DShP_h_f */
	    ret = BitStream_ReadBit(pBitStrm, (&(DShP_h_f_tmp)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_H_F;
	    DShP_h_f->value = (asn1SccUint)DShP_h_f_tmp;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DSHP_B_2		661  /**/
#define ERR_ACN_DECODE_DSHP_B		655  /**/
#define ERR_ACN_DECODE_DSHP_B_X		637  /**/
#define ERR_ACN_DECODE_DSHP_B_O		642  /**/
#define ERR_ACN_DECODE_DSHP_B_Z		650  /**/
flag DShP_b_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShP_b_f);

flag DShP_b_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShP_b_f)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->x)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_B_X;
	if (ret) {
	    pVal->exist.o = DShP_b_f->value ? 1 : 0;
	    /*Decode o */
	    if (pVal->exist.o) {
	    	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->o)));
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_B_O;
	    }
	    if (ret) {
	        /*Decode z */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->z)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_B_Z;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DSHP_C_2		691  /**/
#define ERR_ACN_DECODE_DSHP_C		685  /**/
#define ERR_ACN_DECODE_DSHP_C_X		667  /**/
#define ERR_ACN_DECODE_DSHP_C_O		672  /**/
#define ERR_ACN_DECODE_DSHP_C_Z		680  /**/
flag DShP_c_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShP_c_f);

flag DShP_c_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShP_c_f)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->x)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_C_X;
	if (ret) {
	    pVal->exist.o = DShP_c_f->value ? 1 : 0;
	    /*Decode o */
	    if (pVal->exist.o) {
	    	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->o)));
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_C_O;
	    }
	    if (ret) {
	        /*Decode z */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->z)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_C_Z;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DShP_ACN_Decode(DShP* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef f;

	/*Decode h */
	ret = DShP_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &f);
	if (ret) {
	    /*Decode b */
	    ret = DShP_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &f);
	    if (ret) {
	        /*Decode c */
	        ret = DShP_c_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode, &f);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DShP_IsConstraintValid(pVal, pErrCode);
}


flag PCI_w3_Equal(const PCI_w3* pVal1, const PCI_w3* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCI_Equal(const PCI* pVal1, const PCI* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case w1_PRESENT:
    		ret = (pVal1->u.w1 == pVal2->u.w1);
    		break;
    	case w2_PRESENT:
    		ret = (pVal1->u.w2 == pVal2->u.w2);
    		break;
    	case w3_PRESENT:
    		ret = PCI_w3_Equal((&(pVal1->u.w3)), (&(pVal2->u.w3)));
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCI_w3_IsConstraintValid(const PCI_w3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 9);
    *pErrCode = ret ? 0 :  ERR_PCI_W3;

	return ret;
}

flag PCI_IsConstraintValid(const PCI* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case w1_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.w1)), pErrCode);
            break;          
        case w2_PRESENT : /*COVERAGE_IGNORE*/
            ret = TRUE;
            *pErrCode = 0;
            break;          /*COVERAGE_IGNORE*/
        case w3_PRESENT : 
            ret = PCI_w3_IsConstraintValid((&(pVal->u.w3)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCI;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCI_w3_Initialize(PCI_w3* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 9);
	pVal->nCount = 0;

}
void PCI_Initialize(PCI* pVal)
{
	(void)pVal;


	pVal->kind = w1_PRESENT;
	pVal->u.w1 = 0UL;
}


flag DChI_t_Equal(const DChI_t* pVal1, const DChI_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChI_Equal(const DChI* pVal1, const DChI* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCI_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChI_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChI_t_IsConstraintValid(const DChI_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHI_T;

	return ret;
}

flag DChI_IsConstraintValid(const DChI* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCI_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChI_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChI_t_Initialize(DChI_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChI_Initialize(DChI* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCI_Initialize((&(pVal->b)));
	/*set t */
	DChI_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DCHI_H_2		746  /**/
#define ERR_ACN_ENCODE_DCHI_H		741  /**/
#define ERR_ACN_ENCODE_DCHI_H_V		729  /**/
#define ERR_ACN_ENCODE_DCHI_H_E		736  /**/

flag DChI_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChI_h_k);

flag DChI_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChI_h_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DChI_h_k */
        Acn_InitDet_U8(pBitStrm, DChI_h_k);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DCHI_B_2		781  /**/
#define ERR_ACN_ENCODE_DCHI_B		776  /**/
#define ERR_ACN_ENCODE_DCHI_B_W1		758  /**/
#define ERR_ACN_ENCODE_DCHI_B_W2		766  /**/
#define ERR_ACN_ENCODE_DCHI_B_W3		771  /**/

flag DChI_b_ACN_Encode(const PCI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChI_b_k);

flag DChI_b_ACN_Encode(const PCI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChI_b_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    switch(pVal->kind)
    {
    case w1_PRESENT:
    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->u.w1);
    	break;
    case w2_PRESENT:
    	BitStream_AppendBit(pBitStrm,pVal->u.w2);
    	break;
    case w3_PRESENT:
    	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->u.w3.nCount, 0, 9);
    	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->u.w3.arr, pVal->u.w3.nCount);
    	break;
    default:
        *pErrCode = ERR_ACN_ENCODE_DCHI_B;         /*COVERAGE_IGNORE*/
        ret = FALSE;                    /*COVERAGE_IGNORE*/
    }
    {
    asn1SccUint _patchDetVal;
    switch(pVal->kind) {
        case w1_PRESENT: _patchDetVal = 10; break;
        case w2_PRESENT: _patchDetVal = 20; break;
        case w3_PRESENT: _patchDetVal = 30; break;
        default: ret = FALSE; break; /*COVERAGE_IGNORE*/
    }
    if (!ret) return FALSE;
    ret = Acn_PatchDet_U8((asn1SccUint)_patchDetVal, pBitStrm, DChI_b_k, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;
    }


    return ret;
}

flag DChI_ACN_Encode(const DChI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChI_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DChI_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &k);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DChI_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &k);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DCHI_H_2		748  /**/
#define ERR_ACN_DECODE_DCHI_H		742  /**/
#define ERR_ACN_DECODE_DCHI_H_V		730  /**/
#define ERR_ACN_DECODE_DCHI_H_K		732  /**/
#define ERR_ACN_DECODE_DCHI_H_E		737  /**/
flag DChI_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChI_h_k);

flag DChI_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChI_h_k)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_H_V;
	if (ret) {
	    /*Decode DChI_h_k */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DChI_h_k->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_H_K;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DCHI_B_2		783  /**/
#define ERR_ACN_DECODE_DCHI_B		777  /**/
#define ERR_ACN_DECODE_DCHI_B_W1		759  /**/
#define ERR_ACN_DECODE_DCHI_B_W2		767  /**/
#define ERR_ACN_DECODE_DCHI_B_W3		772  /**/
flag DChI_b_ACN_Decode(PCI* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChI_b_k);

flag DChI_b_ACN_Decode(PCI* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChI_b_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	*pErrCode = 0;
	if ((DChI_b_k->value == 10)) {
	    pVal->kind = w1_PRESENT;
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->u.w1)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_B_W1;
	}
	else if ((DChI_b_k->value == 20)) {
	    pVal->kind = w2_PRESENT;
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->u.w2)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_B_W2;
	}
	else if ((DChI_b_k->value == 30)) {
	    pVal->kind = w3_PRESENT;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 9);
	    if (ret) {
	        pVal->u.w3.nCount = (long)nCount;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->u.w3.arr, pVal->u.w3.nCount);
	    }
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_B_W3;
	}
	else {
	    *pErrCode = ERR_ACN_DECODE_DCHI_B;         /*COVERAGE_IGNORE*/
	    ret = FALSE;                    /*COVERAGE_IGNORE*/
	}

    return ret;
}

flag DChI_ACN_Decode(DChI* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef k;

	/*Decode h */
	ret = DChI_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &k);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_M;
	    if (ret) {
	        /*Decode b */
	        ret = DChI_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &k);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChI_IsConstraintValid(pVal, pErrCode);
}


flag DShC_t_Equal(const DShC_t* pVal1, const DShC_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DShC_Equal(const DShC* pVal1, const DShC* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = PCI_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = PCI_Equal((&(pVal1->c)), (&(pVal2->c)));

            if (ret) {
                ret = DShC_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DShC_t_IsConstraintValid(const DShC_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSHC_T;

	return ret;
}

flag DShC_IsConstraintValid(const DShC* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCI_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = PCI_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = DShC_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DShC_t_Initialize(DShC_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DShC_Initialize(DShC* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	PCI_Initialize((&(pVal->b)));
	/*set c */
	PCI_Initialize((&(pVal->c)));
	/*set t */
	DShC_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DSHC_H_2		815  /**/
#define ERR_ACN_ENCODE_DSHC_H		810  /**/
#define ERR_ACN_ENCODE_DSHC_H_V		798  /**/
#define ERR_ACN_ENCODE_DSHC_H_E		805  /**/

flag DShC_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShC_h_k);

flag DShC_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShC_h_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DShC_h_k */
        Acn_InitDet_U8(pBitStrm, DShC_h_k);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DSHC_B_2		845  /**/
#define ERR_ACN_ENCODE_DSHC_B		840  /**/
#define ERR_ACN_ENCODE_DSHC_B_W1		822  /**/
#define ERR_ACN_ENCODE_DSHC_B_W2		830  /**/
#define ERR_ACN_ENCODE_DSHC_B_W3		835  /**/

flag DShC_b_ACN_Encode(const PCI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShC_b_k);

flag DShC_b_ACN_Encode(const PCI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShC_b_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    switch(pVal->kind)
    {
    case w1_PRESENT:
    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->u.w1);
    	break;
    case w2_PRESENT:
    	BitStream_AppendBit(pBitStrm,pVal->u.w2);
    	break;
    case w3_PRESENT:
    	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->u.w3.nCount, 0, 9);
    	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->u.w3.arr, pVal->u.w3.nCount);
    	break;
    default:
        *pErrCode = ERR_ACN_ENCODE_DSHC_B;         /*COVERAGE_IGNORE*/
        ret = FALSE;                    /*COVERAGE_IGNORE*/
    }
    {
    asn1SccUint _patchDetVal;
    switch(pVal->kind) {
        case w1_PRESENT: _patchDetVal = 10; break;
        case w2_PRESENT: _patchDetVal = 20; break;
        case w3_PRESENT: _patchDetVal = 30; break;
        default: ret = FALSE; break; /*COVERAGE_IGNORE*/
    }
    if (!ret) return FALSE;
    ret = Acn_PatchDet_U8((asn1SccUint)_patchDetVal, pBitStrm, DShC_b_k, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;
    }


    return ret;
}

#define ERR_ACN_ENCODE_DSHC_C_2		875  /**/
#define ERR_ACN_ENCODE_DSHC_C		870  /**/
#define ERR_ACN_ENCODE_DSHC_C_W1		852  /**/
#define ERR_ACN_ENCODE_DSHC_C_W2		860  /**/
#define ERR_ACN_ENCODE_DSHC_C_W3		865  /**/

flag DShC_c_ACN_Encode(const PCI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShC_c_k);

flag DShC_c_ACN_Encode(const PCI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShC_c_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    switch(pVal->kind)
    {
    case w1_PRESENT:
    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->u.w1);
    	break;
    case w2_PRESENT:
    	BitStream_AppendBit(pBitStrm,pVal->u.w2);
    	break;
    case w3_PRESENT:
    	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->u.w3.nCount, 0, 9);
    	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->u.w3.arr, pVal->u.w3.nCount);
    	break;
    default:
        *pErrCode = ERR_ACN_ENCODE_DSHC_C;         /*COVERAGE_IGNORE*/
        ret = FALSE;                    /*COVERAGE_IGNORE*/
    }
    {
    asn1SccUint _patchDetVal;
    switch(pVal->kind) {
        case w1_PRESENT: _patchDetVal = 10; break;
        case w2_PRESENT: _patchDetVal = 20; break;
        case w3_PRESENT: _patchDetVal = 30; break;
        default: ret = FALSE; break; /*COVERAGE_IGNORE*/
    }
    if (!ret) return FALSE;
    ret = Acn_PatchDet_U8((asn1SccUint)_patchDetVal, pBitStrm, DShC_c_k, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;
    }


    return ret;
}

flag DShC_ACN_Encode(const DShC* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DShC_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DShC_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &k);
	    if (ret) {
	        /*Encode b */
	        ret = DShC_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &k);
	        if (ret) {
	            /*Encode c */
	            ret = DShC_c_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE, &k);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DSHC_H_2		817  /**/
#define ERR_ACN_DECODE_DSHC_H		811  /**/
#define ERR_ACN_DECODE_DSHC_H_V		799  /**/
#define ERR_ACN_DECODE_DSHC_H_K		801  /**/
#define ERR_ACN_DECODE_DSHC_H_E		806  /**/
flag DShC_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShC_h_k);

flag DShC_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShC_h_k)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_H_V;
	if (ret) {
	    /*Decode DShC_h_k */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DShC_h_k->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_H_K;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DSHC_B_2		847  /**/
#define ERR_ACN_DECODE_DSHC_B		841  /**/
#define ERR_ACN_DECODE_DSHC_B_W1		823  /**/
#define ERR_ACN_DECODE_DSHC_B_W2		831  /**/
#define ERR_ACN_DECODE_DSHC_B_W3		836  /**/
flag DShC_b_ACN_Decode(PCI* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShC_b_k);

flag DShC_b_ACN_Decode(PCI* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShC_b_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	*pErrCode = 0;
	if ((DShC_b_k->value == 10)) {
	    pVal->kind = w1_PRESENT;
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->u.w1)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_B_W1;
	}
	else if ((DShC_b_k->value == 20)) {
	    pVal->kind = w2_PRESENT;
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->u.w2)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_B_W2;
	}
	else if ((DShC_b_k->value == 30)) {
	    pVal->kind = w3_PRESENT;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 9);
	    if (ret) {
	        pVal->u.w3.nCount = (long)nCount;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->u.w3.arr, pVal->u.w3.nCount);
	    }
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_B_W3;
	}
	else {
	    *pErrCode = ERR_ACN_DECODE_DSHC_B;         /*COVERAGE_IGNORE*/
	    ret = FALSE;                    /*COVERAGE_IGNORE*/
	}

    return ret;
}

#define ERR_ACN_DECODE_DSHC_C_2		877  /**/
#define ERR_ACN_DECODE_DSHC_C		871  /**/
#define ERR_ACN_DECODE_DSHC_C_W1		853  /**/
#define ERR_ACN_DECODE_DSHC_C_W2		861  /**/
#define ERR_ACN_DECODE_DSHC_C_W3		866  /**/
flag DShC_c_ACN_Decode(PCI* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShC_c_k);

flag DShC_c_ACN_Decode(PCI* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShC_c_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	*pErrCode = 0;
	if ((DShC_c_k->value == 10)) {
	    pVal->kind = w1_PRESENT;
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->u.w1)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_C_W1;
	}
	else if ((DShC_c_k->value == 20)) {
	    pVal->kind = w2_PRESENT;
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->u.w2)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_C_W2;
	}
	else if ((DShC_c_k->value == 30)) {
	    pVal->kind = w3_PRESENT;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 9);
	    if (ret) {
	        pVal->u.w3.nCount = (long)nCount;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->u.w3.arr, pVal->u.w3.nCount);
	    }
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_C_W3;
	}
	else {
	    *pErrCode = ERR_ACN_DECODE_DSHC_C;         /*COVERAGE_IGNORE*/
	    ret = FALSE;                    /*COVERAGE_IGNORE*/
	}

    return ret;
}

flag DShC_ACN_Decode(DShC* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef k;

	/*Decode h */
	ret = DShC_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &k);
	if (ret) {
	    /*Decode b */
	    ret = DShC_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &k);
	    if (ret) {
	        /*Decode c */
	        ret = DShC_c_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode, &k);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DShC_IsConstraintValid(pVal, pErrCode);
}


flag P32_Equal(const P32* pVal1, const P32* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P32_IsConstraintValid(const P32* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 4294967295UL);
    *pErrCode = ret ? 0 :  ERR_P32;

	return ret;
}

void P32_Initialize(P32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P32_ACN_Encode(const P32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P32_ACN_Decode(P32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P32;

    return ret && P32_IsConstraintValid(pVal, pErrCode);
}


flag CP_b_Equal(const CP_b* pVal1, const CP_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag CP_Equal(const CP* pVal1, const CP* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->a == pVal2->a);

    if (ret) {
        ret = CP_b_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = (pVal1->c == pVal2->c);

        }

    }

	return ret;

}

flag CP_b_IsConstraintValid(const CP_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 30);
    *pErrCode = ret ? 0 :  ERR_CP_B;

	return ret;
}

flag CP_IsConstraintValid(const CP* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = P32_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        ret = CP_b_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = P8_IsConstraintValid((&(pVal->c)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CP_b_Initialize(CP_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 30);
	pVal->nCount = 0;

}
void CP_Initialize(CP* pVal)
{
	(void)pVal;


	/*set a */
	P32_Initialize((&(pVal->a)));
	/*set b */
	CP_b_Initialize((&(pVal->b)));
	/*set c */
	P8_Initialize((&(pVal->c)));
}


flag DCo_t_Equal(const DCo_t* pVal1, const DCo_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DCo_Equal(const DCo* pVal1, const DCo* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = CP_Equal((&(pVal1->p)), (&(pVal2->p)));

        if (ret) {
            ret = DCo_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DCo_t_IsConstraintValid(const DCo_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCO_T;

	return ret;
}

flag DCo_IsConstraintValid(const DCo* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = CP_IsConstraintValid((&(pVal->p)), pErrCode);
        if (ret) {
            ret = DCo_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DCo_t_Initialize(DCo_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DCo_Initialize(DCo* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set p */
	CP_Initialize((&(pVal->p)));
	/*set t */
	DCo_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DCO_H_2		946  /**/
#define ERR_ACN_ENCODE_DCO_H		941  /**/
#define ERR_ACN_ENCODE_DCO_H_V		927  /**/
#define ERR_ACN_ENCODE_DCO_H_E		936  /**/

flag DCo_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCo_h_n, AcnInsertedFieldRef* DCo_h_len);

flag DCo_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCo_h_n, AcnInsertedFieldRef* DCo_h_len)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DCo_h_len */
        Acn_InitDet_U16_BE(pBitStrm, DCo_h_len);
        if (ret) {
            /*Encode DCo_h_n */
            Acn_InitDet_U8(pBitStrm, DCo_h_n);
            if (ret) {
                /*Encode e */
                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DCO_P_2		983  /**/
#define ERR_ACN_ENCODE_DCO_P		978  /**/
#define ERR_ACN_ENCODE_DCO_P_A_2		958  /**/
#define ERR_ACN_ENCODE_DCO_P_B		963  /**/
#define ERR_ACN_ENCODE_DCO_P_C_2		973  /**/

flag DCo_p_ACN_Encode(const CP* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCo_p_n, AcnInsertedFieldRef* DCo_p_len);

flag DCo_p_ACN_Encode(const CP* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DCo_p_n, AcnInsertedFieldRef* DCo_p_len)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    {
        AcnBitStreamPos acn_data_start = Acn_BitStream_GetPos(pBitStrm);
        /*Encode a */
        ret = P32_ACN_Encode((&(pVal->a)), pBitStrm, pErrCode, FALSE);
        if (ret) {
            /*Encode b */
            ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
            if (ret) {
                /*Encode c */
                ret = P8_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
        if (ret) {
            AcnBitStreamPos acn_data_end = Acn_BitStream_GetPos(pBitStrm);
            /* an octet string holds whole octets */
            while (Acn_BitStream_DistanceInBits(acn_data_start, acn_data_end) % 8 != 0) {
                BitStream_AppendBitZero(pBitStrm);
                acn_data_end = Acn_BitStream_GetPos(pBitStrm);
            }
            asn1SccUint acn_nCount = Acn_BitStream_DistanceInBytes(acn_data_start, acn_data_end);
            ret = Acn_PatchDet_U16_BE((asn1SccUint)acn_nCount, pBitStrm, DCo_p_len, pErrCode);
            *pErrCode = ERR_ACN_ENCODE_DCO_P_2;
            if (!ret) return FALSE;
        }
    }
    ret = Acn_PatchDet_U8((asn1SccUint)pVal->b.nCount, pBitStrm, DCo_p_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DCo_ACN_Encode(const DCo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
	AcnInsertedFieldRef len;
    *pErrCode = 0;
	ret = bCheckConstraints ? DCo_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DCo_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n, &len);
	    if (ret) {
	        /*Encode p */
	        ret = DCo_p_ACN_Encode((&(pVal->p)), pBitStrm, pErrCode, FALSE, &n, &len);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DCO_H_2		948  /**/
#define ERR_ACN_DECODE_DCO_H		942  /**/
#define ERR_ACN_DECODE_DCO_H_V		928  /**/
#define ERR_ACN_DECODE_DCO_H_LEN		930  /**/
#define ERR_ACN_DECODE_DCO_H_N		932  /**/
#define ERR_ACN_DECODE_DCO_H_E		937  /**/
flag DCo_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCo_h_n, AcnInsertedFieldRef* DCo_h_len);

flag DCo_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCo_h_n, AcnInsertedFieldRef* DCo_h_len)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_V;
	if (ret) {
	    /*Decode DCo_h_len */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(DCo_h_len->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_LEN;
	    if (ret) {
	        /*Decode DCo_h_n */
	        ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DCo_h_n->value)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_N;
	        if (ret) {
	            /*Decode e */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_E;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DCO_P_2		985  /**/
#define ERR_ACN_DECODE_DCO_P		979  /**/
#define ERR_ACN_DECODE_DCO_P_A_2		959  /**/
#define ERR_ACN_DECODE_DCO_P_B		964  /**/
#define ERR_ACN_DECODE_DCO_P_C_2		974  /**/
flag DCo_p_ACN_Decode(CP* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCo_p_n, AcnInsertedFieldRef* DCo_p_len);

flag DCo_p_ACN_Decode(CP* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DCo_p_n, AcnInsertedFieldRef* DCo_p_len)
{
    flag ret = TRUE;
	*pErrCode = 0;


	{
	    AcnBitStreamPos acn_stream_end = { pBitStrm->count, 0 };
	    ret = DCo_p_len->value <= Acn_BitStream_DistanceInBits(Acn_BitStream_GetPos(pBitStrm), acn_stream_end) / 8;
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_2;
	    if (ret) {
	        long acn_saved_count = pBitStrm->count;
	        long acn_end_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit + (long)DCo_p_len->value * 8L;
	        pBitStrm->count = (acn_end_bits + 7) / 8;
	        /*Decode a */
	        ret = P32_ACN_Decode((&(pVal->a)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode b */
	            ret = (DCo_p_n->value<=30);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_B;
	            if (ret) {
	                pVal->b.nCount = (int)DCo_p_n->value;
	                ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_B;
	            }
	            if (ret) {
	                /*Decode c */
	                ret = P8_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        pBitStrm->count = acn_saved_count;
	        if (ret) {
	            ret = pBitStrm->currentByte * 8L + pBitStrm->currentBit <= acn_end_bits;
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_2;
	            pBitStrm->currentByte = acn_end_bits / 8;
	            pBitStrm->currentBit = (int)(acn_end_bits % 8);
	        }
	    }
	}

    return ret;
}

flag DCo_ACN_Decode(DCo* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;
	AcnInsertedFieldRef len;

	/*Decode h */
	ret = DCo_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n, &len);
	if (ret) {
	    /*Decode p */
	    ret = DCo_p_ACN_Decode((&(pVal->p)), pBitStrm, pErrCode, &n, &len);
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DCo_IsConstraintValid(pVal, pErrCode);
}


flag OB_Equal(const OB* pVal1, const OB* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OB_IsConstraintValid(const OB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 25);
    *pErrCode = ret ? 0 :  ERR_OB;

	return ret;
}

void OB_Initialize(OB* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 25);
	pVal->nCount = 0;

}


flag DW16L_t_Equal(const DW16L_t* pVal1, const DW16L_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW16L_Equal(const DW16L* pVal1, const DW16L* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW16L_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW16L_t_IsConstraintValid(const DW16L_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW16L_T;

	return ret;
}

flag DW16L_IsConstraintValid(const DW16L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW16L_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW16L_t_Initialize(DW16L_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW16L_Initialize(DW16L* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set t */
	DW16L_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW16L_H_2		1022  /**/
#define ERR_ACN_ENCODE_DW16L_H		1017  /**/
#define ERR_ACN_ENCODE_DW16L_H_V		1005  /**/
#define ERR_ACN_ENCODE_DW16L_H_E		1012  /**/

flag DW16L_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16L_h_n);

flag DW16L_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16L_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW16L_h_n */
        Acn_InitDet_U16_LE(pBitStrm, DW16L_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW16L_B_2		1039  /**/
#define ERR_ACN_ENCODE_DW16L_B		1034  /**/

flag DW16L_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16L_b_n);

flag DW16L_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW16L_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_U16_LE((asn1SccUint)pVal->nCount, pBitStrm, DW16L_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW16L_ACN_Encode(const DW16L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW16L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW16L_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW16L_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW16L_H_2		1024  /**/
#define ERR_ACN_DECODE_DW16L_H		1018  /**/
#define ERR_ACN_DECODE_DW16L_H_V		1006  /**/
#define ERR_ACN_DECODE_DW16L_H_N		1008  /**/
#define ERR_ACN_DECODE_DW16L_H_E		1013  /**/
flag DW16L_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16L_h_n);

flag DW16L_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16L_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_H_V;
	if (ret) {
	    /*Decode DW16L_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, (&(DW16L_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW16L_B_2		1041  /**/
#define ERR_ACN_DECODE_DW16L_B		1035  /**/
flag DW16L_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16L_b_n);

flag DW16L_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW16L_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (DW16L_b_n->value<=25);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_B;
	if (ret) {
	    pVal->nCount = (int)DW16L_b_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_B;
	}

    return ret;
}

flag DW16L_ACN_Decode(DW16L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW16L_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW16L_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW16L_IsConstraintValid(pVal, pErrCode);
}


flag DW64L_t_Equal(const DW64L_t* pVal1, const DW64L_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW64L_Equal(const DW64L* pVal1, const DW64L* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW64L_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW64L_t_IsConstraintValid(const DW64L_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW64L_T;

	return ret;
}

flag DW64L_IsConstraintValid(const DW64L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW64L_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW64L_t_Initialize(DW64L_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW64L_Initialize(DW64L* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set t */
	DW64L_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW64L_H_2		1073  /**/
#define ERR_ACN_ENCODE_DW64L_H		1068  /**/
#define ERR_ACN_ENCODE_DW64L_H_V		1056  /**/
#define ERR_ACN_ENCODE_DW64L_H_E		1063  /**/

flag DW64L_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64L_h_n);

flag DW64L_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64L_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW64L_h_n */
        Acn_InitDet_U64_LE(pBitStrm, DW64L_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW64L_B_2		1090  /**/
#define ERR_ACN_ENCODE_DW64L_B		1085  /**/

flag DW64L_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64L_b_n);

flag DW64L_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW64L_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_U64_LE((asn1SccUint)pVal->nCount, pBitStrm, DW64L_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW64L_ACN_Encode(const DW64L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW64L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW64L_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW64L_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW64L_H_2		1075  /**/
#define ERR_ACN_DECODE_DW64L_H		1069  /**/
#define ERR_ACN_DECODE_DW64L_H_V		1057  /**/
#define ERR_ACN_DECODE_DW64L_H_N		1059  /**/
#define ERR_ACN_DECODE_DW64L_H_E		1064  /**/
flag DW64L_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64L_h_n);

flag DW64L_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64L_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_H_V;
	if (ret) {
	    /*Decode DW64L_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, (&(DW64L_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW64L_B_2		1092  /**/
#define ERR_ACN_DECODE_DW64L_B		1086  /**/
flag DW64L_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64L_b_n);

flag DW64L_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW64L_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (DW64L_b_n->value<=25);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_B;
	if (ret) {
	    pVal->nCount = (int)DW64L_b_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_B;
	}

    return ret;
}

flag DW64L_ACN_Decode(DW64L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW64L_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW64L_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW64L_IsConstraintValid(pVal, pErrCode);
}


flag DI32_t_Equal(const DI32_t* pVal1, const DI32_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI32_Equal(const DI32* pVal1, const DI32* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI32_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI32_t_IsConstraintValid(const DI32_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI32_T;

	return ret;
}

flag DI32_IsConstraintValid(const DI32* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI32_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI32_t_Initialize(DI32_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI32_Initialize(DI32* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set t */
	DI32_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DI32_H_2		1124  /**/
#define ERR_ACN_ENCODE_DI32_H		1119  /**/
#define ERR_ACN_ENCODE_DI32_H_V		1107  /**/
#define ERR_ACN_ENCODE_DI32_H_E		1114  /**/

flag DI32_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI32_h_n);

flag DI32_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI32_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DI32_h_n */
        Acn_InitDet_I32_BE(pBitStrm, DI32_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DI32_B_2		1141  /**/
#define ERR_ACN_ENCODE_DI32_B		1136  /**/

flag DI32_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI32_b_n);

flag DI32_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI32_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_I32_BE((asn1SccUint)pVal->nCount, pBitStrm, DI32_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DI32_ACN_Encode(const DI32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DI32_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DI32_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DI32_H_2		1126  /**/
#define ERR_ACN_DECODE_DI32_H		1120  /**/
#define ERR_ACN_DECODE_DI32_H_V		1108  /**/
#define ERR_ACN_DECODE_DI32_H_N		1110  /**/
#define ERR_ACN_DECODE_DI32_H_E		1115  /**/
flag DI32_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI32_h_n);

flag DI32_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI32_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_H_V;
	if (ret) {
	    /*Decode DI32_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, (&(DI32_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DI32_B_2		1143  /**/
#define ERR_ACN_DECODE_DI32_B		1137  /**/
flag DI32_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI32_b_n);

flag DI32_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI32_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (0<=DI32_b_n->value && DI32_b_n->value<=25);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_B;
	if (ret) {
	    pVal->nCount = (int)DI32_b_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_B;
	}

    return ret;
}

flag DI32_ACN_Decode(DI32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DI32_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_M;
	    if (ret) {
	        /*Decode b */
	        ret = DI32_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI32_IsConstraintValid(pVal, pErrCode);
}


flag Lv3_z_Equal(const Lv3_z* pVal1, const Lv3_z* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Lv3_Equal(const Lv3* pVal1, const Lv3* pVal2)
{
	flag ret=TRUE;

    ret = Lv3_z_Equal((&(pVal1->z)), (&(pVal2->z)));

    if (ret) {
        ret = OB_Equal((&(pVal1->o)), (&(pVal2->o)));

    }

	return ret;

}

flag Lv3_z_IsConstraintValid(const Lv3_z* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_LV3_Z;

	return ret;
}

flag Lv3_IsConstraintValid(const Lv3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Lv3_z_IsConstraintValid((&(pVal->z)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->o)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Lv3_z_Initialize(Lv3_z* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Lv3_Initialize(Lv3* pVal)
{
	(void)pVal;


	/*set z */
	Lv3_z_Initialize((&(pVal->z)));
	/*set o */
	OB_Initialize((&(pVal->o)));
}


flag Lv2_Equal(const Lv2* pVal1, const Lv2* pVal2)
{
	flag ret=TRUE;

    ret = Lv3_Equal((&(pVal1->l3)), (&(pVal2->l3)));

    if (ret) {
        ret = PB_Equal((&(pVal1->p)), (&(pVal2->p)));

    }

	return ret;

}

flag Lv2_IsConstraintValid(const Lv2* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Lv3_IsConstraintValid((&(pVal->l3)), pErrCode);
    if (ret) {
        ret = PB_IsConstraintValid((&(pVal->p)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Lv2_Initialize(Lv2* pVal)
{
	(void)pVal;


	/*set l3 */
	Lv3_Initialize((&(pVal->l3)));
	/*set p */
	PB_Initialize((&(pVal->p)));
}


flag Lv1_y_Equal(const Lv1_y* pVal1, const Lv1_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Lv1_Equal(const Lv1* pVal1, const Lv1* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = Lv2_Equal((&(pVal1->l2)), (&(pVal2->l2)));

        if (ret) {
            ret = Lv1_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag Lv1_y_IsConstraintValid(const Lv1_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_LV1_Y;

	return ret;
}

flag Lv1_IsConstraintValid(const Lv1* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Lv2_IsConstraintValid((&(pVal->l2)), pErrCode);
    if (ret) {
        ret = Lv1_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Lv1_y_Initialize(Lv1_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Lv1_Initialize(Lv1* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set l2 */
	Lv2_Initialize((&(pVal->l2)));
	/*set y */
	Lv1_y_Initialize((&(pVal->y)));
}


flag DFwd_m_Equal(const DFwd_m* pVal1, const DFwd_m* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DFwd_Equal(const DFwd* pVal1, const DFwd* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = DFwd_m_Equal((&(pVal1->m)), (&(pVal2->m)));

        if (ret) {
            ret = Lv1_Equal((&(pVal1->l)), (&(pVal2->l)));

            if (ret) {
                ret = (pVal1->t == pVal2->t);

            }

        }

    }

	return ret;

}

flag DFwd_m_IsConstraintValid(const DFwd_m* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_DFWD_M;

	return ret;
}

flag DFwd_IsConstraintValid(const DFwd* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = DFwd_m_IsConstraintValid((&(pVal->m)), pErrCode);
        if (ret) {
            ret = Lv1_IsConstraintValid((&(pVal->l)), pErrCode);
            if (ret) {
                ret = P8_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DFwd_m_Initialize(DFwd_m* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DFwd_Initialize(DFwd* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	DFwd_m_Initialize((&(pVal->m)));
	/*set l */
	Lv1_Initialize((&(pVal->l)));
	/*set t */
	P8_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DFWD_H_2		1349  /**/
#define ERR_ACN_ENCODE_DFWD_H		1344  /**/
#define ERR_ACN_ENCODE_DFWD_H_V		1330  /**/
#define ERR_ACN_ENCODE_DFWD_H_E		1339  /**/

flag DFwd_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_h_f, AcnInsertedFieldRef* DFwd_h_n);

flag DFwd_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_h_f, AcnInsertedFieldRef* DFwd_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DFwd_h_n */
        Acn_InitDet_ConstSize(pBitStrm, 7, DFwd_h_n);
        if (ret) {
            /*Encode DFwd_h_f */
            Acn_InitDet_BOOL1(pBitStrm, DFwd_h_f);
            if (ret) {
                /*Encode e */
                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DFWD_L_L2_L3_O_2		1376  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3_O		1371  /**/

flag DFwd_l_l2_l3_o_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_l3_o_n);

flag DFwd_l_l2_l3_o_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_l3_o_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_ConstSize((asn1SccUint)pVal->nCount, pBitStrm, 7, DFwd_l_l2_l3_o_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

#define ERR_ACN_ENCODE_DFWD_L_L2_L3_2		1388  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3		1383  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3_Z		1366  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3_O_2_2		1377  /**/

flag DFwd_l_l2_l3_ACN_Encode(const Lv3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_l3_n);

flag DFwd_l_l2_l3_ACN_Encode(const Lv3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_l3_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode z */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->z, 0, 3);
    if (ret) {
        /*Encode o */
        ret = DFwd_l_l2_l3_o_ACN_Encode((&(pVal->o)), pBitStrm, pErrCode, FALSE, DFwd_l_l2_l3_n);
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DFWD_L_L2_P_2		1418  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P		1413  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P_X		1395  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P_O		1400  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P_Z		1408  /**/

flag DFwd_l_l2_p_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_p_f);

flag DFwd_l_l2_p_ACN_Encode(const PB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_p_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->x, 0, 7);
    if (ret) {
        /*Encode o */
        if (pVal->exist.o) {
        	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->o);
        }
        if (ret) {
            /*Encode z */
            BitStream_AppendBit(pBitStrm,pVal->z);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_BOOL1((asn1SccUint)(pVal->exist.o == 1), pBitStrm, DFwd_l_l2_p_f, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

#define ERR_ACN_ENCODE_DFWD_L_L2_2		1430  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2		1425  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_L3_2_2		1389  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_P_2_2		1419  /**/

flag DFwd_l_l2_ACN_Encode(const Lv2* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_n, AcnInsertedFieldRef* DFwd_l_l2_f);

flag DFwd_l_l2_ACN_Encode(const Lv2* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_l2_n, AcnInsertedFieldRef* DFwd_l_l2_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode l3 */
    ret = DFwd_l_l2_l3_ACN_Encode((&(pVal->l3)), pBitStrm, pErrCode, FALSE, DFwd_l_l2_n);
    if (ret) {
        /*Encode p */
        ret = DFwd_l_l2_p_ACN_Encode((&(pVal->p)), pBitStrm, pErrCode, FALSE, DFwd_l_l2_f);
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DFWD_L_2		1447  /**/
#define ERR_ACN_ENCODE_DFWD_L		1442  /**/
#define ERR_ACN_ENCODE_DFWD_L_X		1361  /**/
#define ERR_ACN_ENCODE_DFWD_L_L2_2_2		1431  /**/
#define ERR_ACN_ENCODE_DFWD_L_Y		1437  /**/

flag DFwd_l_ACN_Encode(const Lv1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_n, AcnInsertedFieldRef* DFwd_l_f);

flag DFwd_l_ACN_Encode(const Lv1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DFwd_l_n, AcnInsertedFieldRef* DFwd_l_f)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode l2 */
        ret = DFwd_l_l2_ACN_Encode((&(pVal->l2)), pBitStrm, pErrCode, FALSE, DFwd_l_n, DFwd_l_f);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 7);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

flag DFwd_ACN_Encode(const DFwd* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef f;
	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DFwd_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DFwd_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &f, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->m, 0, 7);
	        if (ret) {
	            /*Encode l */
	            ret = DFwd_l_ACN_Encode((&(pVal->l)), pBitStrm, pErrCode, FALSE, &n, &f);
	            if (ret) {
	                /*Encode t */
	                ret = P8_ACN_Encode((&(pVal->t)), pBitStrm, pErrCode, FALSE);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DFWD_H_2		1351  /**/
#define ERR_ACN_DECODE_DFWD_H		1345  /**/
#define ERR_ACN_DECODE_DFWD_H_V		1331  /**/
#define ERR_ACN_DECODE_DFWD_H_N		1333  /**/
#define ERR_ACN_DECODE_DFWD_H_F		1335  /**/
#define ERR_ACN_DECODE_DFWD_H_E		1340  /**/
flag DFwd_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_h_f, AcnInsertedFieldRef* DFwd_h_n);

flag DFwd_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_h_f, AcnInsertedFieldRef* DFwd_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag DFwd_h_f_tmp;

	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_V;
	if (ret) {
	    /*Decode DFwd_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DFwd_h_n->value)), 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_N;
	    if (ret) {
	        /*Decode DFwd_h_f */
	        ret = BitStream_ReadBit(pBitStrm, (&(DFwd_h_f_tmp)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_F;
	        DFwd_h_f->value = (asn1SccUint)DFwd_h_f_tmp;
	        if (ret) {
	            /*Decode e */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_E;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DFWD_L_L2_L3_O_2		1378  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3_O		1372  /**/
flag DFwd_l_l2_l3_o_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_l3_o_n);

flag DFwd_l_l2_l3_o_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_l3_o_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (0<=DFwd_l_l2_l3_o_n->value && DFwd_l_l2_l3_o_n->value<=25);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_L3_O;
	if (ret) {
	    pVal->nCount = (int)DFwd_l_l2_l3_o_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_L3_O;
	}

    return ret;
}

#define ERR_ACN_DECODE_DFWD_L_L2_L3_2		1390  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3		1384  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3_Z		1367  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3_O_2_2		1379  /**/
flag DFwd_l_l2_l3_ACN_Decode(Lv3* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_l3_n);

flag DFwd_l_l2_l3_ACN_Decode(Lv3* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_l3_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode z */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->z)), 0, 3);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_L3_Z;
	if (ret) {
	    /*Decode o */
	    ret = DFwd_l_l2_l3_o_ACN_Decode((&(pVal->o)), pBitStrm, pErrCode, DFwd_l_l2_l3_n);
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DFWD_L_L2_P_2		1420  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P		1414  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P_X		1396  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P_O		1401  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P_Z		1409  /**/
flag DFwd_l_l2_p_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_p_f);

flag DFwd_l_l2_p_ACN_Decode(PB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_p_f)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->x)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_P_X;
	if (ret) {
	    pVal->exist.o = DFwd_l_l2_p_f->value ? 1 : 0;
	    /*Decode o */
	    if (pVal->exist.o) {
	    	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->o)));
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_P_O;
	    }
	    if (ret) {
	        /*Decode z */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->z)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_P_Z;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DFWD_L_L2_2		1432  /**/
#define ERR_ACN_DECODE_DFWD_L_L2		1426  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_L3_2_2		1391  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_P_2_2		1421  /**/
flag DFwd_l_l2_ACN_Decode(Lv2* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_n, AcnInsertedFieldRef* DFwd_l_l2_f);

flag DFwd_l_l2_ACN_Decode(Lv2* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_l2_n, AcnInsertedFieldRef* DFwd_l_l2_f)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode l3 */
	ret = DFwd_l_l2_l3_ACN_Decode((&(pVal->l3)), pBitStrm, pErrCode, DFwd_l_l2_n);
	if (ret) {
	    /*Decode p */
	    ret = DFwd_l_l2_p_ACN_Decode((&(pVal->p)), pBitStrm, pErrCode, DFwd_l_l2_f);
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DFWD_L_2		1449  /**/
#define ERR_ACN_DECODE_DFWD_L		1443  /**/
#define ERR_ACN_DECODE_DFWD_L_X		1362  /**/
#define ERR_ACN_DECODE_DFWD_L_L2_2_2		1433  /**/
#define ERR_ACN_DECODE_DFWD_L_Y		1438  /**/
flag DFwd_l_ACN_Decode(Lv1* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_n, AcnInsertedFieldRef* DFwd_l_f);

flag DFwd_l_ACN_Decode(Lv1* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DFwd_l_n, AcnInsertedFieldRef* DFwd_l_f)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_X;
	if (ret) {
	    /*Decode l2 */
	    ret = DFwd_l_l2_ACN_Decode((&(pVal->l2)), pBitStrm, pErrCode, DFwd_l_n, DFwd_l_f);
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 7);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DFwd_ACN_Decode(DFwd* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef f;
	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DFwd_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &f, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->m)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_M;
	    if (ret) {
	        /*Decode l */
	        ret = DFwd_l_ACN_Decode((&(pVal->l)), pBitStrm, pErrCode, &n, &f);
	        if (ret) {
	            /*Decode t */
	            ret = P8_ACN_Decode((&(pVal->t)), pBitStrm, pErrCode);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DFwd_IsConstraintValid(pVal, pErrCode);
}


flag SB_s_Equal(const SB_s pVal1, const SB_s pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag SB_y_Equal(const SB_y* pVal1, const SB_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag SB_Equal(const SB* pVal1, const SB* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = SB_s_Equal(pVal1->s, pVal2->s);

        if (ret) {
            ret = SB_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag SB_s_IsConstraintValid(const SB_s pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 12);
    *pErrCode = ret ? 0 :  ERR_SB_S;

	return ret;
}

flag SB_y_IsConstraintValid(const SB_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_SB_Y;

	return ret;
}

flag SB_IsConstraintValid(const SB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = SB_s_IsConstraintValid(pVal->s, pErrCode);
    if (ret) {
        ret = SB_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void SB_s_Initialize(SB_s pVal)
{
	(void)pVal;


	memset(pVal, ' ', 12);
	pVal[12] = 0;

}
void SB_y_Initialize(SB_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void SB_Initialize(SB* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set s */
	SB_s_Initialize(pVal->s);
	/*set y */
	SB_y_Initialize((&(pVal->y)));
}


flag DW8_t_Equal(const DW8_t* pVal1, const DW8_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW8_Equal(const DW8* pVal1, const DW8* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW8_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW8_t_IsConstraintValid(const DW8_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW8_T;

	return ret;
}

flag DW8_IsConstraintValid(const DW8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW8_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW8_t_Initialize(DW8_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW8_Initialize(DW8* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DW8_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW8_H_2		1506  /**/
#define ERR_ACN_ENCODE_DW8_H		1501  /**/
#define ERR_ACN_ENCODE_DW8_H_V		1489  /**/
#define ERR_ACN_ENCODE_DW8_H_E		1496  /**/

flag DW8_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW8_h_n);

flag DW8_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW8_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW8_h_n */
        Acn_InitDet_U8(pBitStrm, DW8_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW8_B_2		1538  /**/
#define ERR_ACN_ENCODE_DW8_B		1533  /**/
#define ERR_ACN_ENCODE_DW8_B_X		1518  /**/
#define ERR_ACN_ENCODE_DW8_B_S		1523  /**/
#define ERR_ACN_ENCODE_DW8_B_Y		1528  /**/

flag DW8_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW8_b_n);

flag DW8_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW8_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->s);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_U8((asn1SccUint)strlen(pVal->s), pBitStrm, DW8_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW8_ACN_Encode(const DW8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW8_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW8_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW8_H_2		1508  /**/
#define ERR_ACN_DECODE_DW8_H		1502  /**/
#define ERR_ACN_DECODE_DW8_H_V		1490  /**/
#define ERR_ACN_DECODE_DW8_H_N		1492  /**/
#define ERR_ACN_DECODE_DW8_H_E		1497  /**/
flag DW8_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW8_h_n);

flag DW8_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW8_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_H_V;
	if (ret) {
	    /*Decode DW8_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DW8_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW8_B_2		1540  /**/
#define ERR_ACN_DECODE_DW8_B		1534  /**/
#define ERR_ACN_DECODE_DW8_B_X		1519  /**/
#define ERR_ACN_DECODE_DW8_B_S		1524  /**/
#define ERR_ACN_DECODE_DW8_B_Y		1529  /**/
flag DW8_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW8_b_n);

flag DW8_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW8_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_B_X;
	if (ret) {
	    /*Decode s */
	    ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DW8_b_n->value, pVal->s);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_B_S;
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DW8_ACN_Decode(DW8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW8_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW8_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW8_IsConstraintValid(pVal, pErrCode);
}


flag DW32_t_Equal(const DW32_t* pVal1, const DW32_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW32_Equal(const DW32* pVal1, const DW32* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW32_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW32_t_IsConstraintValid(const DW32_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW32_T;

	return ret;
}

flag DW32_IsConstraintValid(const DW32* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW32_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW32_t_Initialize(DW32_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW32_Initialize(DW32* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DW32_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW32_H_2		1572  /**/
#define ERR_ACN_ENCODE_DW32_H		1567  /**/
#define ERR_ACN_ENCODE_DW32_H_V		1555  /**/
#define ERR_ACN_ENCODE_DW32_H_E		1562  /**/

flag DW32_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32_h_n);

flag DW32_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW32_h_n */
        Acn_InitDet_U32_BE(pBitStrm, DW32_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW32_B_2		1604  /**/
#define ERR_ACN_ENCODE_DW32_B		1599  /**/
#define ERR_ACN_ENCODE_DW32_B_X		1584  /**/
#define ERR_ACN_ENCODE_DW32_B_S		1589  /**/
#define ERR_ACN_ENCODE_DW32_B_Y		1594  /**/

flag DW32_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32_b_n);

flag DW32_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->s);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_U32_BE((asn1SccUint)strlen(pVal->s), pBitStrm, DW32_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW32_ACN_Encode(const DW32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW32_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW32_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW32_H_2		1574  /**/
#define ERR_ACN_DECODE_DW32_H		1568  /**/
#define ERR_ACN_DECODE_DW32_H_V		1556  /**/
#define ERR_ACN_DECODE_DW32_H_N		1558  /**/
#define ERR_ACN_DECODE_DW32_H_E		1563  /**/
flag DW32_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32_h_n);

flag DW32_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_H_V;
	if (ret) {
	    /*Decode DW32_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, (&(DW32_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW32_B_2		1606  /**/
#define ERR_ACN_DECODE_DW32_B		1600  /**/
#define ERR_ACN_DECODE_DW32_B_X		1585  /**/
#define ERR_ACN_DECODE_DW32_B_S		1590  /**/
#define ERR_ACN_DECODE_DW32_B_Y		1595  /**/
flag DW32_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32_b_n);

flag DW32_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_B_X;
	if (ret) {
	    /*Decode s */
	    ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DW32_b_n->value, pVal->s);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_B_S;
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DW32_ACN_Decode(DW32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW32_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW32_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW32_IsConstraintValid(pVal, pErrCode);
}


flag DI8_t_Equal(const DI8_t* pVal1, const DI8_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI8_Equal(const DI8* pVal1, const DI8* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI8_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI8_t_IsConstraintValid(const DI8_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI8_T;

	return ret;
}

flag DI8_IsConstraintValid(const DI8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI8_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI8_t_Initialize(DI8_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI8_Initialize(DI8* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DI8_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DI8_H_2		1638  /**/
#define ERR_ACN_ENCODE_DI8_H		1633  /**/
#define ERR_ACN_ENCODE_DI8_H_V		1621  /**/
#define ERR_ACN_ENCODE_DI8_H_E		1628  /**/

flag DI8_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI8_h_n);

flag DI8_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI8_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DI8_h_n */
        Acn_InitDet_I8(pBitStrm, DI8_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DI8_B_2		1670  /**/
#define ERR_ACN_ENCODE_DI8_B		1665  /**/
#define ERR_ACN_ENCODE_DI8_B_X		1650  /**/
#define ERR_ACN_ENCODE_DI8_B_S		1655  /**/
#define ERR_ACN_ENCODE_DI8_B_Y		1660  /**/

flag DI8_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI8_b_n);

flag DI8_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI8_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->s);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_I8((asn1SccUint)strlen(pVal->s), pBitStrm, DI8_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DI8_ACN_Encode(const DI8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DI8_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DI8_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DI8_H_2		1640  /**/
#define ERR_ACN_DECODE_DI8_H		1634  /**/
#define ERR_ACN_DECODE_DI8_H_V		1622  /**/
#define ERR_ACN_DECODE_DI8_H_N		1624  /**/
#define ERR_ACN_DECODE_DI8_H_E		1629  /**/
flag DI8_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI8_h_n);

flag DI8_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI8_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_H_V;
	if (ret) {
	    /*Decode DI8_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, (&(DI8_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DI8_B_2		1672  /**/
#define ERR_ACN_DECODE_DI8_B		1666  /**/
#define ERR_ACN_DECODE_DI8_B_X		1651  /**/
#define ERR_ACN_DECODE_DI8_B_S		1656  /**/
#define ERR_ACN_DECODE_DI8_B_Y		1661  /**/
flag DI8_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI8_b_n);

flag DI8_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI8_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_B_X;
	if (ret) {
	    /*Decode s */
	    ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DI8_b_n->value, pVal->s);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_B_S;
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DI8_ACN_Decode(DI8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DI8_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_M;
	    if (ret) {
	        /*Decode b */
	        ret = DI8_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI8_IsConstraintValid(pVal, pErrCode);
}


flag DI64_t_Equal(const DI64_t* pVal1, const DI64_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI64_Equal(const DI64* pVal1, const DI64* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI64_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI64_t_IsConstraintValid(const DI64_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI64_T;

	return ret;
}

flag DI64_IsConstraintValid(const DI64* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI64_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI64_t_Initialize(DI64_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI64_Initialize(DI64* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DI64_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DI64_H_2		1704  /**/
#define ERR_ACN_ENCODE_DI64_H		1699  /**/
#define ERR_ACN_ENCODE_DI64_H_V		1687  /**/
#define ERR_ACN_ENCODE_DI64_H_E		1694  /**/

flag DI64_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI64_h_n);

flag DI64_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI64_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DI64_h_n */
        Acn_InitDet_I64_BE(pBitStrm, DI64_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DI64_B_2		1736  /**/
#define ERR_ACN_ENCODE_DI64_B		1731  /**/
#define ERR_ACN_ENCODE_DI64_B_X		1716  /**/
#define ERR_ACN_ENCODE_DI64_B_S		1721  /**/
#define ERR_ACN_ENCODE_DI64_B_Y		1726  /**/

flag DI64_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI64_b_n);

flag DI64_b_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI64_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->s);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_I64_BE((asn1SccUint)strlen(pVal->s), pBitStrm, DI64_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DI64_ACN_Encode(const DI64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI64_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DI64_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DI64_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DI64_H_2		1706  /**/
#define ERR_ACN_DECODE_DI64_H		1700  /**/
#define ERR_ACN_DECODE_DI64_H_V		1688  /**/
#define ERR_ACN_DECODE_DI64_H_N		1690  /**/
#define ERR_ACN_DECODE_DI64_H_E		1695  /**/
flag DI64_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI64_h_n);

flag DI64_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI64_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_H_V;
	if (ret) {
	    /*Decode DI64_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, (&(DI64_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DI64_B_2		1738  /**/
#define ERR_ACN_DECODE_DI64_B		1732  /**/
#define ERR_ACN_DECODE_DI64_B_X		1717  /**/
#define ERR_ACN_DECODE_DI64_B_S		1722  /**/
#define ERR_ACN_DECODE_DI64_B_Y		1727  /**/
flag DI64_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI64_b_n);

flag DI64_b_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI64_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_B_X;
	if (ret) {
	    /*Decode s */
	    ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DI64_b_n->value, pVal->s);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_B_S;
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DI64_ACN_Decode(DI64* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DI64_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_M;
	    if (ret) {
	        /*Decode b */
	        ret = DI64_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI64_IsConstraintValid(pVal, pErrCode);
}


flag DSh_t_Equal(const DSh_t* pVal1, const DSh_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DSh_Equal(const DSh* pVal1, const DSh* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = (pVal1->m == pVal2->m);

            if (ret) {
                ret = SB_Equal((&(pVal1->c)), (&(pVal2->c)));

                if (ret) {
                    ret = DSh_t_Equal((&(pVal1->t)), (&(pVal2->t)));

                }

            }

        }

    }

	return ret;

}

flag DSh_t_IsConstraintValid(const DSh_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSH_T;

	return ret;
}

flag DSh_IsConstraintValid(const DSh* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = SB_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = DSh_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DSh_t_Initialize(DSh_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DSh_Initialize(DSh* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set m */
	pVal->m = FALSE;
	/*set c */
	SB_Initialize((&(pVal->c)));
	/*set t */
	DSh_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DSH_H_2		1770  /**/
#define ERR_ACN_ENCODE_DSH_H		1765  /**/
#define ERR_ACN_ENCODE_DSH_H_V		1753  /**/
#define ERR_ACN_ENCODE_DSH_H_E		1760  /**/

flag DSh_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DSh_h_n);

flag DSh_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DSh_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DSh_h_n */
        Acn_InitDet_ConstSize(pBitStrm, 5, DSh_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DSH_B_2		1782  /**/
#define ERR_ACN_ENCODE_DSH_B		1777  /**/

flag DSh_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DSh_b_n);

flag DSh_b_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DSh_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_ConstSize((asn1SccUint)pVal->nCount, pBitStrm, 5, DSh_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

#define ERR_ACN_ENCODE_DSH_C_2		1814  /**/
#define ERR_ACN_ENCODE_DSH_C		1809  /**/
#define ERR_ACN_ENCODE_DSH_C_X		1794  /**/
#define ERR_ACN_ENCODE_DSH_C_S		1799  /**/
#define ERR_ACN_ENCODE_DSH_C_Y		1804  /**/

flag DSh_c_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DSh_c_n);

flag DSh_c_ACN_Encode(const SB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DSh_c_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->s);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_ConstSize((asn1SccUint)strlen(pVal->s), pBitStrm, 5, DSh_c_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DSh_ACN_Encode(const DSh* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DSh_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DSh_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode b */
	        ret = DSh_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	        if (ret) {
	            /*Encode m */
	            BitStream_AppendBit(pBitStrm,pVal->m);
	            if (ret) {
	                /*Encode c */
	                ret = DSh_c_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE, &n);
	                if (ret) {
	                    /*Encode t */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DSH_H_2		1772  /**/
#define ERR_ACN_DECODE_DSH_H		1766  /**/
#define ERR_ACN_DECODE_DSH_H_V		1754  /**/
#define ERR_ACN_DECODE_DSH_H_N		1756  /**/
#define ERR_ACN_DECODE_DSH_H_E		1761  /**/
flag DSh_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DSh_h_n);

flag DSh_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DSh_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_H_V;
	if (ret) {
	    /*Decode DSh_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DSh_h_n->value)), 5);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DSH_B_2		1784  /**/
#define ERR_ACN_DECODE_DSH_B		1778  /**/
flag DSh_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DSh_b_n);

flag DSh_b_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DSh_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (DSh_b_n->value<=25);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_B;
	if (ret) {
	    pVal->nCount = (int)DSh_b_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_B;
	}

    return ret;
}

#define ERR_ACN_DECODE_DSH_C_2		1816  /**/
#define ERR_ACN_DECODE_DSH_C		1810  /**/
#define ERR_ACN_DECODE_DSH_C_X		1795  /**/
#define ERR_ACN_DECODE_DSH_C_S		1800  /**/
#define ERR_ACN_DECODE_DSH_C_Y		1805  /**/
flag DSh_c_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DSh_c_n);

flag DSh_c_ACN_Decode(SB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DSh_c_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_C_X;
	if (ret) {
	    /*Decode s */
	    ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DSh_c_n->value, pVal->s);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_C_S;
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_C_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DSh_ACN_Decode(DSh* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DSh_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode b */
	    ret = DSh_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	    if (ret) {
	        /*Decode m */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_M;
	        if (ret) {
	            /*Decode c */
	            ret = DSh_c_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode, &n);
	            if (ret) {
	                /*Decode t */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_T;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DSh_IsConstraintValid(pVal, pErrCode);
}


flag BB_s_Equal(const BB_s* pVal1, const BB_s* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BB_y_Equal(const BB_y* pVal1, const BB_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag BB_Equal(const BB* pVal1, const BB* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = BB_s_Equal((&(pVal1->s)), (&(pVal2->s)));

        if (ret) {
            ret = BB_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag BB_s_IsConstraintValid(const BB_s* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 61);
    *pErrCode = ret ? 0 :  ERR_BB_S;

	return ret;
}

flag BB_y_IsConstraintValid(const BB_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_BB_Y;

	return ret;
}

flag BB_IsConstraintValid(const BB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = BB_s_IsConstraintValid((&(pVal->s)), pErrCode);
    if (ret) {
        ret = BB_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void BB_s_Initialize(BB_s* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 64/8);

	pVal->nCount = 0;
}
void BB_y_Initialize(BB_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void BB_Initialize(BB* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set s */
	BB_s_Initialize((&(pVal->s)));
	/*set y */
	BB_y_Initialize((&(pVal->y)));
}


flag DW12_t_Equal(const DW12_t* pVal1, const DW12_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW12_Equal(const DW12* pVal1, const DW12* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = BB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW12_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW12_t_IsConstraintValid(const DW12_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW12_T;

	return ret;
}

flag DW12_IsConstraintValid(const DW12* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW12_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW12_t_Initialize(DW12_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW12_Initialize(DW12* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	BB_Initialize((&(pVal->b)));
	/*set t */
	DW12_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW12_H_2		1868  /**/
#define ERR_ACN_ENCODE_DW12_H		1863  /**/
#define ERR_ACN_ENCODE_DW12_H_V		1851  /**/
#define ERR_ACN_ENCODE_DW12_H_E		1858  /**/

flag DW12_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW12_h_n);

flag DW12_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW12_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW12_h_n */
        Acn_InitDet_ConstSize(pBitStrm, 12, DW12_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW12_B_2		1900  /**/
#define ERR_ACN_ENCODE_DW12_B		1895  /**/
#define ERR_ACN_ENCODE_DW12_B_X		1880  /**/
#define ERR_ACN_ENCODE_DW12_B_S		1885  /**/
#define ERR_ACN_ENCODE_DW12_B_Y		1890  /**/

flag DW12_b_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW12_b_n);

flag DW12_b_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW12_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        BitStream_AppendBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_ConstSize((asn1SccUint)pVal->s.nCount, pBitStrm, 12, DW12_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW12_ACN_Encode(const DW12* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW12_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW12_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW12_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW12_H_2		1870  /**/
#define ERR_ACN_DECODE_DW12_H		1864  /**/
#define ERR_ACN_DECODE_DW12_H_V		1852  /**/
#define ERR_ACN_DECODE_DW12_H_N		1854  /**/
#define ERR_ACN_DECODE_DW12_H_E		1859  /**/
flag DW12_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW12_h_n);

flag DW12_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW12_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_H_V;
	if (ret) {
	    /*Decode DW12_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DW12_h_n->value)), 12);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW12_B_2		1902  /**/
#define ERR_ACN_DECODE_DW12_B		1896  /**/
#define ERR_ACN_DECODE_DW12_B_X		1881  /**/
#define ERR_ACN_DECODE_DW12_B_S		1886  /**/
#define ERR_ACN_DECODE_DW12_B_Y		1891  /**/
flag DW12_b_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW12_b_n);

flag DW12_b_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW12_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_X;
	if (ret) {
	    /*Decode s */
	    ret = (DW12_b_n->value<=61);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DW12_b_n->value;
	        ret = BitStream_ReadBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_S;
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DW12_ACN_Decode(DW12* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW12_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW12_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW12_IsConstraintValid(pVal, pErrCode);
}


flag DW32L_t_Equal(const DW32L_t* pVal1, const DW32L_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW32L_Equal(const DW32L* pVal1, const DW32L* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = BB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW32L_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW32L_t_IsConstraintValid(const DW32L_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW32L_T;

	return ret;
}

flag DW32L_IsConstraintValid(const DW32L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW32L_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW32L_t_Initialize(DW32L_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW32L_Initialize(DW32L* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	BB_Initialize((&(pVal->b)));
	/*set t */
	DW32L_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DW32L_H_2		1934  /**/
#define ERR_ACN_ENCODE_DW32L_H		1929  /**/
#define ERR_ACN_ENCODE_DW32L_H_V		1917  /**/
#define ERR_ACN_ENCODE_DW32L_H_E		1924  /**/

flag DW32L_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32L_h_n);

flag DW32L_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32L_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DW32L_h_n */
        Acn_InitDet_U32_LE(pBitStrm, DW32L_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DW32L_B_2		1966  /**/
#define ERR_ACN_ENCODE_DW32L_B		1961  /**/
#define ERR_ACN_ENCODE_DW32L_B_X		1946  /**/
#define ERR_ACN_ENCODE_DW32L_B_S		1951  /**/
#define ERR_ACN_ENCODE_DW32L_B_Y		1956  /**/

flag DW32L_b_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32L_b_n);

flag DW32L_b_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DW32L_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        BitStream_AppendBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_U32_LE((asn1SccUint)pVal->s.nCount, pBitStrm, DW32L_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DW32L_ACN_Encode(const DW32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW32L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DW32L_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DW32L_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DW32L_H_2		1936  /**/
#define ERR_ACN_DECODE_DW32L_H		1930  /**/
#define ERR_ACN_DECODE_DW32L_H_V		1918  /**/
#define ERR_ACN_DECODE_DW32L_H_N		1920  /**/
#define ERR_ACN_DECODE_DW32L_H_E		1925  /**/
flag DW32L_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32L_h_n);

flag DW32L_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32L_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_H_V;
	if (ret) {
	    /*Decode DW32L_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, (&(DW32L_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DW32L_B_2		1968  /**/
#define ERR_ACN_DECODE_DW32L_B		1962  /**/
#define ERR_ACN_DECODE_DW32L_B_X		1947  /**/
#define ERR_ACN_DECODE_DW32L_B_S		1952  /**/
#define ERR_ACN_DECODE_DW32L_B_Y		1957  /**/
flag DW32L_b_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32L_b_n);

flag DW32L_b_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DW32L_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_X;
	if (ret) {
	    /*Decode s */
	    ret = (DW32L_b_n->value<=61);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DW32L_b_n->value;
	        ret = BitStream_ReadBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_S;
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DW32L_ACN_Decode(DW32L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DW32L_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_M;
	    if (ret) {
	        /*Decode b */
	        ret = DW32L_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW32L_IsConstraintValid(pVal, pErrCode);
}


flag DI16_t_Equal(const DI16_t* pVal1, const DI16_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI16_Equal(const DI16* pVal1, const DI16* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = BB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI16_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI16_t_IsConstraintValid(const DI16_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI16_T;

	return ret;
}

flag DI16_IsConstraintValid(const DI16* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI16_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI16_t_Initialize(DI16_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI16_Initialize(DI16* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	BB_Initialize((&(pVal->b)));
	/*set t */
	DI16_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DI16_H_2		2000  /**/
#define ERR_ACN_ENCODE_DI16_H		1995  /**/
#define ERR_ACN_ENCODE_DI16_H_V		1983  /**/
#define ERR_ACN_ENCODE_DI16_H_E		1990  /**/

flag DI16_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI16_h_n);

flag DI16_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI16_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DI16_h_n */
        Acn_InitDet_I16_BE(pBitStrm, DI16_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DI16_B_2		2032  /**/
#define ERR_ACN_ENCODE_DI16_B		2027  /**/
#define ERR_ACN_ENCODE_DI16_B_X		2012  /**/
#define ERR_ACN_ENCODE_DI16_B_S		2017  /**/
#define ERR_ACN_ENCODE_DI16_B_Y		2022  /**/

flag DI16_b_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI16_b_n);

flag DI16_b_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DI16_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        BitStream_AppendBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_I16_BE((asn1SccUint)pVal->s.nCount, pBitStrm, DI16_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DI16_ACN_Encode(const DI16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI16_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DI16_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DI16_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DI16_H_2		2002  /**/
#define ERR_ACN_DECODE_DI16_H		1996  /**/
#define ERR_ACN_DECODE_DI16_H_V		1984  /**/
#define ERR_ACN_DECODE_DI16_H_N		1986  /**/
#define ERR_ACN_DECODE_DI16_H_E		1991  /**/
flag DI16_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI16_h_n);

flag DI16_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI16_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_H_V;
	if (ret) {
	    /*Decode DI16_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, (&(DI16_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DI16_B_2		2034  /**/
#define ERR_ACN_DECODE_DI16_B		2028  /**/
#define ERR_ACN_DECODE_DI16_B_X		2013  /**/
#define ERR_ACN_DECODE_DI16_B_S		2018  /**/
#define ERR_ACN_DECODE_DI16_B_Y		2023  /**/
flag DI16_b_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI16_b_n);

flag DI16_b_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DI16_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_X;
	if (ret) {
	    /*Decode s */
	    ret = (0<=DI16_b_n->value && DI16_b_n->value<=61);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DI16_b_n->value;
	        ret = BitStream_ReadBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_S;
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

flag DI16_ACN_Decode(DI16* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DI16_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_M;
	    if (ret) {
	        /*Decode b */
	        ret = DI16_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI16_IsConstraintValid(pVal, pErrCode);
}


flag DShQ_t_Equal(const DShQ_t* pVal1, const DShQ_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DShQ_Equal(const DShQ* pVal1, const DShQ* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = (pVal1->m == pVal2->m);

            if (ret) {
                ret = BB_Equal((&(pVal1->c)), (&(pVal2->c)));

                if (ret) {
                    ret = OB_Equal((&(pVal1->d)), (&(pVal2->d)));

                    if (ret) {
                        ret = DShQ_t_Equal((&(pVal1->t)), (&(pVal2->t)));

                    }

                }

            }

        }

    }

	return ret;

}

flag DShQ_t_IsConstraintValid(const DShQ_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSHQ_T;

	return ret;
}

flag DShQ_IsConstraintValid(const DShQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = BB_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = OB_IsConstraintValid((&(pVal->d)), pErrCode);
                if (ret) {
                    ret = DShQ_t_IsConstraintValid((&(pVal->t)), pErrCode);
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DShQ_t_Initialize(DShQ_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DShQ_Initialize(DShQ* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set m */
	pVal->m = FALSE;
	/*set c */
	BB_Initialize((&(pVal->c)));
	/*set d */
	OB_Initialize((&(pVal->d)));
	/*set t */
	DShQ_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DSHQ_H_2		2066  /**/
#define ERR_ACN_ENCODE_DSHQ_H		2061  /**/
#define ERR_ACN_ENCODE_DSHQ_H_V		2049  /**/
#define ERR_ACN_ENCODE_DSHQ_H_E		2056  /**/

flag DShQ_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_h_n);

flag DShQ_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DShQ_h_n */
        Acn_InitDet_U16_LE(pBitStrm, DShQ_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DSHQ_B_2		2103  /**/
#define ERR_ACN_ENCODE_DSHQ_B		2098  /**/
#define ERR_ACN_ENCODE_DSHQ_B_X		2073  /**/
#define ERR_ACN_ENCODE_DSHQ_B_S		2088  /**/
#define ERR_ACN_ENCODE_DSHQ_B_S_ELM_2		2083  /**/
#define ERR_ACN_ENCODE_DSHQ_B_Y		2093  /**/

flag DShQ_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_b_n);

flag DShQ_b_ACN_Encode(const QB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_b_n)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
        {
        	ret = P5_ACN_Encode((&(pVal->s.arr[i1])), pBitStrm, pErrCode, FALSE);
        }
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_U16_LE((asn1SccUint)pVal->s.nCount, pBitStrm, DShQ_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

#define ERR_ACN_ENCODE_DSHQ_C_2		2135  /**/
#define ERR_ACN_ENCODE_DSHQ_C		2130  /**/
#define ERR_ACN_ENCODE_DSHQ_C_X		2115  /**/
#define ERR_ACN_ENCODE_DSHQ_C_S		2120  /**/
#define ERR_ACN_ENCODE_DSHQ_C_Y		2125  /**/

flag DShQ_c_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_c_n);

flag DShQ_c_ACN_Encode(const BB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_c_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode x */
    BitStream_AppendBit(pBitStrm,pVal->x);
    if (ret) {
        /*Encode s */
        BitStream_AppendBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
        if (ret) {
            /*Encode y */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->y, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/
    ret = Acn_PatchDet_U16_LE((asn1SccUint)pVal->s.nCount, pBitStrm, DShQ_c_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

#define ERR_ACN_ENCODE_DSHQ_D_2		2147  /**/
#define ERR_ACN_ENCODE_DSHQ_D		2142  /**/

flag DShQ_d_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_d_n);

flag DShQ_d_ACN_Encode(const OB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DShQ_d_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_U16_LE((asn1SccUint)pVal->nCount, pBitStrm, DShQ_d_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DShQ_ACN_Encode(const DShQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DShQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DShQ_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode b */
	        ret = DShQ_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	        if (ret) {
	            /*Encode m */
	            BitStream_AppendBit(pBitStrm,pVal->m);
	            if (ret) {
	                /*Encode c */
	                ret = DShQ_c_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE, &n);
	                if (ret) {
	                    /*Encode d */
	                    ret = DShQ_d_ACN_Encode((&(pVal->d)), pBitStrm, pErrCode, FALSE, &n);
	                    if (ret) {
	                        /*Encode t */
	                        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DSHQ_H_2		2068  /**/
#define ERR_ACN_DECODE_DSHQ_H		2062  /**/
#define ERR_ACN_DECODE_DSHQ_H_V		2050  /**/
#define ERR_ACN_DECODE_DSHQ_H_N		2052  /**/
#define ERR_ACN_DECODE_DSHQ_H_E		2057  /**/
flag DShQ_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_h_n);

flag DShQ_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_H_V;
	if (ret) {
	    /*Decode DShQ_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, (&(DShQ_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DSHQ_B_2		2105  /**/
#define ERR_ACN_DECODE_DSHQ_B		2099  /**/
#define ERR_ACN_DECODE_DSHQ_B_X		2074  /**/
#define ERR_ACN_DECODE_DSHQ_B_S		2089  /**/
#define ERR_ACN_DECODE_DSHQ_B_S_ELM_2		2084  /**/
#define ERR_ACN_DECODE_DSHQ_B_Y		2094  /**/
flag DShQ_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_b_n);

flag DShQ_b_ACN_Decode(QB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;

	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_B_X;
	if (ret) {
	    /*Decode s */
	    ret = ((DShQ_b_n->value<=9));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_B_S;
	    if (ret) {
	        pVal->s.nCount = (int)DShQ_b_n->value;
	        for(i1=0; (i1 < (int)pVal->s.nCount) && ret; i1++)
	        {
	        	ret = P5_ACN_Decode((&(pVal->s.arr[i1])), pBitStrm, pErrCode);
	        }
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_B_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DSHQ_C_2		2137  /**/
#define ERR_ACN_DECODE_DSHQ_C		2131  /**/
#define ERR_ACN_DECODE_DSHQ_C_X		2116  /**/
#define ERR_ACN_DECODE_DSHQ_C_S		2121  /**/
#define ERR_ACN_DECODE_DSHQ_C_Y		2126  /**/
flag DShQ_c_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_c_n);

flag DShQ_c_ACN_Decode(BB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_c_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->x)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_X;
	if (ret) {
	    /*Decode s */
	    ret = (DShQ_c_n->value<=61);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_S;
	    if (ret) {
	        pVal->s.nCount = (int)DShQ_c_n->value;
	        ret = BitStream_ReadBits(pBitStrm, pVal->s.arr, pVal->s.nCount);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_S;
	    }
	    if (ret) {
	        /*Decode y */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->y)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_Y;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DSHQ_D_2		2149  /**/
#define ERR_ACN_DECODE_DSHQ_D		2143  /**/
flag DShQ_d_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_d_n);

flag DShQ_d_ACN_Decode(OB* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DShQ_d_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (DShQ_d_n->value<=25);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_D;
	if (ret) {
	    pVal->nCount = (int)DShQ_d_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_D;
	}

    return ret;
}

flag DShQ_ACN_Decode(DShQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DShQ_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode b */
	    ret = DShQ_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	    if (ret) {
	        /*Decode m */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_M;
	        if (ret) {
	            /*Decode c */
	            ret = DShQ_c_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode, &n);
	            if (ret) {
	                /*Decode d */
	                ret = DShQ_d_ACN_Decode((&(pVal->d)), pBitStrm, pErrCode, &n);
	                if (ret) {
	                    /*Decode t */
	                    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_T;
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DShQ_IsConstraintValid(pVal, pErrCode);
}


flag Len2_Equal(const Len2* pVal1, const Len2* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Len2_IsConstraintValid(const Len2* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((2UL <= (*(pVal))) && ((*(pVal)) <= 20UL));
    *pErrCode = ret ? 0 :  ERR_LEN2;

	return ret;
}

void Len2_Initialize(Len2* pVal)
{
	(void)pVal;


	(*(pVal)) = 2UL;
}

flag Len2_ACN_Encode(const Len2* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Len2_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (*(pVal)), 2, 20);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Len2_ACN_Decode(Len2* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, pVal, 2, 20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_LEN2;

    return ret && Len2_IsConstraintValid(pVal, pErrCode);
}


flag OBM_Equal(const OBM* pVal1, const OBM* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OBM_IsConstraintValid(const OBM* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((2 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 20));
    *pErrCode = ret ? 0 :  ERR_OBM;

	return ret;
}

void OBM_Initialize(OBM* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 20);
	pVal->nCount = 2;

}


flag DUp_t_Equal(const DUp_t* pVal1, const DUp_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DUp_Equal(const DUp* pVal1, const DUp* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OBM_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DUp_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DUp_t_IsConstraintValid(const DUp_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DUP_T;

	return ret;
}

flag DUp_IsConstraintValid(const DUp* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OBM_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DUp_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DUp_t_Initialize(DUp_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DUp_Initialize(DUp* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OBM_Initialize((&(pVal->b)));
	/*set t */
	DUp_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DUP_H_2		2191  /**/
#define ERR_ACN_ENCODE_DUP_H		2186  /**/
#define ERR_ACN_ENCODE_DUP_H_V		2174  /**/
#define ERR_ACN_ENCODE_DUP_H_E		2181  /**/

flag DUp_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DUp_h_n);

flag DUp_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DUp_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DUp_h_n */
        Acn_InitDet_ConstSize(pBitStrm, 5, DUp_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DUP_B_2		2203  /**/
#define ERR_ACN_ENCODE_DUP_B		2198  /**/

flag DUp_b_ACN_Encode(const OBM* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DUp_b_n);

flag DUp_b_ACN_Encode(const OBM* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DUp_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_ConstSize((asn1SccUint)(pVal->nCount - 2), pBitStrm, 5, DUp_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DUp_ACN_Encode(const DUp* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DUp_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DUp_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode b */
	        ret = DUp_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DUP_H_2		2193  /**/
#define ERR_ACN_DECODE_DUP_H		2187  /**/
#define ERR_ACN_DECODE_DUP_H_V		2175  /**/
#define ERR_ACN_DECODE_DUP_H_N		2177  /**/
#define ERR_ACN_DECODE_DUP_H_E		2182  /**/
flag DUp_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DUp_h_n);

flag DUp_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DUp_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_H_V;
	if (ret) {
	    /*Decode DUp_h_n */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(DUp_h_n->value)), 2, 20);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DUP_B_2		2205  /**/
#define ERR_ACN_DECODE_DUP_B		2199  /**/
flag DUp_b_ACN_Decode(OBM* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DUp_b_n);

flag DUp_b_ACN_Decode(OBM* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DUp_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (2<=DUp_b_n->value && DUp_b_n->value<=20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_B;
	if (ret) {
	    pVal->nCount = (int)DUp_b_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_B;
	}

    return ret;
}

flag DUp_ACN_Decode(DUp* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DUp_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode b */
	    ret = DUp_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DUp_IsConstraintValid(pVal, pErrCode);
}


flag Len3_Equal(const Len3* pVal1, const Len3* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Len3_IsConstraintValid(const Len3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 20UL);
    *pErrCode = ret ? 0 :  ERR_LEN3;

	return ret;
}

void Len3_Initialize(Len3* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag Len3_ACN_Encode(const Len3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Len3_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (*(pVal)), 0, 20);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Len3_ACN_Decode(Len3* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, pVal, 0, 20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_LEN3;

    return ret && Len3_IsConstraintValid(pVal, pErrCode);
}


flag OB3_Equal(const OB3* pVal1, const OB3* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OB3_IsConstraintValid(const OB3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 20);
    *pErrCode = ret ? 0 :  ERR_OB3;

	return ret;
}

void OB3_Initialize(OB3* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 20);
	pVal->nCount = 0;

}


flag DLn_t_Equal(const DLn_t* pVal1, const DLn_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DLn_Equal(const DLn* pVal1, const DLn* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OB3_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DLn_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DLn_t_IsConstraintValid(const DLn_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DLN_T;

	return ret;
}

flag DLn_IsConstraintValid(const DLn* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB3_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DLn_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DLn_t_Initialize(DLn_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DLn_Initialize(DLn* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OB3_Initialize((&(pVal->b)));
	/*set t */
	DLn_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DLN_H_2		2247  /**/
#define ERR_ACN_ENCODE_DLN_H		2242  /**/
#define ERR_ACN_ENCODE_DLN_H_V		2230  /**/
#define ERR_ACN_ENCODE_DLN_H_E		2237  /**/

flag DLn_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLn_h_n);

flag DLn_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLn_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DLn_h_n */
        Acn_InitDet_U8(pBitStrm, DLn_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DLN_B_2		2259  /**/
#define ERR_ACN_ENCODE_DLN_B		2254  /**/

flag DLn_b_ACN_Encode(const OB3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLn_b_n);

flag DLn_b_ACN_Encode(const OB3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLn_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_U8((asn1SccUint)pVal->nCount, pBitStrm, DLn_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DLn_ACN_Encode(const DLn* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DLn_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DLn_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode b */
	        ret = DLn_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DLN_H_2		2249  /**/
#define ERR_ACN_DECODE_DLN_H		2243  /**/
#define ERR_ACN_DECODE_DLN_H_V		2231  /**/
#define ERR_ACN_DECODE_DLN_H_N		2233  /**/
#define ERR_ACN_DECODE_DLN_H_E		2238  /**/
flag DLn_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLn_h_n);

flag DLn_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLn_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_H_V;
	if (ret) {
	    /*Decode DLn_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DLn_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DLN_B_2		2261  /**/
#define ERR_ACN_DECODE_DLN_B		2255  /**/
flag DLn_b_ACN_Decode(OB3* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLn_b_n);

flag DLn_b_ACN_Decode(OB3* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLn_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (DLn_b_n->value<=20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_B;
	if (ret) {
	    pVal->nCount = (int)DLn_b_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_B;
	}

    return ret;
}

flag DLn_ACN_Decode(DLn* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DLn_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode b */
	    ret = DLn_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DLn_IsConstraintValid(pVal, pErrCode);
}


flag Len4_Equal(const Len4* pVal1, const Len4* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Len4_IsConstraintValid(const Len4* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-20LL <= (*(pVal))) && ((*(pVal)) <= 20LL));
    *pErrCode = ret ? 0 :  ERR_LEN4;

	return ret;
}

void Len4_Initialize(Len4* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag Len4_ACN_Encode(const Len4* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Len4_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, (*(pVal)), -20, 20);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Len4_ACN_Decode(Len4* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, pVal, -20, 20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_LEN4;

    return ret && Len4_IsConstraintValid(pVal, pErrCode);
}


flag OB4_Equal(const OB4* pVal1, const OB4* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OB4_IsConstraintValid(const OB4* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 20);
    *pErrCode = ret ? 0 :  ERR_OB4;

	return ret;
}

void OB4_Initialize(OB4* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 20);
	pVal->nCount = 0;

}


flag DLs_t_Equal(const DLs_t* pVal1, const DLs_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DLs_Equal(const DLs* pVal1, const DLs* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OB4_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DLs_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DLs_t_IsConstraintValid(const DLs_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DLS_T;

	return ret;
}

flag DLs_IsConstraintValid(const DLs* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB4_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DLs_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DLs_t_Initialize(DLs_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DLs_Initialize(DLs* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OB4_Initialize((&(pVal->b)));
	/*set t */
	DLs_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DLS_H_2		2303  /**/
#define ERR_ACN_ENCODE_DLS_H		2298  /**/
#define ERR_ACN_ENCODE_DLS_H_V		2286  /**/
#define ERR_ACN_ENCODE_DLS_H_E		2293  /**/

flag DLs_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLs_h_n);

flag DLs_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLs_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DLs_h_n */
        Acn_InitDet_I8(pBitStrm, DLs_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DLS_B_2		2315  /**/
#define ERR_ACN_ENCODE_DLS_B		2310  /**/

flag DLs_b_ACN_Encode(const OB4* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLs_b_n);

flag DLs_b_ACN_Encode(const OB4* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLs_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_I8((asn1SccUint)pVal->nCount, pBitStrm, DLs_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DLs_ACN_Encode(const DLs* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DLs_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DLs_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode b */
	        ret = DLs_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DLS_H_2		2305  /**/
#define ERR_ACN_DECODE_DLS_H		2299  /**/
#define ERR_ACN_DECODE_DLS_H_V		2287  /**/
#define ERR_ACN_DECODE_DLS_H_N		2289  /**/
#define ERR_ACN_DECODE_DLS_H_E		2294  /**/
flag DLs_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLs_h_n);

flag DLs_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLs_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_H_V;
	if (ret) {
	    /*Decode DLs_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, (&(DLs_h_n->value)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DLS_B_2		2317  /**/
#define ERR_ACN_DECODE_DLS_B		2311  /**/
flag DLs_b_ACN_Decode(OB4* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLs_b_n);

flag DLs_b_ACN_Decode(OB4* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLs_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (0<=DLs_b_n->value && DLs_b_n->value<=20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_B;
	if (ret) {
	    pVal->nCount = (int)DLs_b_n->value;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_B;
	}

    return ret;
}

flag DLs_ACN_Decode(DLs* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DLs_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode b */
	    ret = DLs_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DLs_IsConstraintValid(pVal, pErrCode);
}


flag BB3_Equal(const BB3* pVal1, const BB3* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BB3_IsConstraintValid(const BB3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 20);
    *pErrCode = ret ? 0 :  ERR_BB3;

	return ret;
}

void BB3_Initialize(BB3* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 24/8);

	pVal->nCount = 0;
}


flag DLb_t_Equal(const DLb_t* pVal1, const DLb_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DLb_Equal(const DLb* pVal1, const DLb* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = BB3_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DLb_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DLb_t_IsConstraintValid(const DLb_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DLB_T;

	return ret;
}

flag DLb_IsConstraintValid(const DLb* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB3_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DLb_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DLb_t_Initialize(DLb_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DLb_Initialize(DLb* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	BB3_Initialize((&(pVal->b)));
	/*set t */
	DLb_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DLB_H_2		2354  /**/
#define ERR_ACN_ENCODE_DLB_H		2349  /**/
#define ERR_ACN_ENCODE_DLB_H_V		2337  /**/
#define ERR_ACN_ENCODE_DLB_H_E		2344  /**/

flag DLb_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLb_h_n);

flag DLb_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLb_h_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DLb_h_n */
        Acn_InitDet_TwosComplement_ConstSize(pBitStrm, 7, DLb_h_n);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DLB_B_2		2366  /**/
#define ERR_ACN_ENCODE_DLB_B		2361  /**/

flag DLb_b_ACN_Encode(const BB3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLb_b_n);

flag DLb_b_ACN_Encode(const BB3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DLb_b_n)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    BitStream_AppendBits(pBitStrm, pVal->arr, pVal->nCount);
    ret = Acn_PatchDet_TwosComplement_ConstSize((asn1SccUint)pVal->nCount, pBitStrm, 7, DLb_b_n, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;


    return ret;
}

flag DLb_ACN_Encode(const DLb* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef n;
    *pErrCode = 0;
	ret = bCheckConstraints ? DLb_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DLb_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &n);
	    if (ret) {
	        /*Encode b */
	        ret = DLb_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &n);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DLB_H_2		2356  /**/
#define ERR_ACN_DECODE_DLB_H		2350  /**/
#define ERR_ACN_DECODE_DLB_H_V		2338  /**/
#define ERR_ACN_DECODE_DLB_H_N		2340  /**/
#define ERR_ACN_DECODE_DLB_H_E		2345  /**/
flag DLb_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLb_h_n);

flag DLb_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLb_h_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_H_V;
	if (ret) {
	    /*Decode DLb_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(DLb_h_n->value)), 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DLB_B_2		2368  /**/
#define ERR_ACN_DECODE_DLB_B		2362  /**/
flag DLb_b_ACN_Decode(BB3* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLb_b_n);

flag DLb_b_ACN_Decode(BB3* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DLb_b_n)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = (0<=DLb_b_n->value && DLb_b_n->value<=20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_B;
	if (ret) {
	    pVal->nCount = (int)DLb_b_n->value;
	    ret = BitStream_ReadBits(pBitStrm, pVal->arr, pVal->nCount);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_B;
	}

    return ret;
}

flag DLb_ACN_Decode(DLb* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef n;

	/*Decode h */
	ret = DLb_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &n);
	if (ret) {
	    /*Decode b */
	    ret = DLb_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &n);
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DLb_IsConstraintValid(pVal, pErrCode);
}


flag TgE_Equal(const TgE* pVal1, const TgE* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag TgE_IsConstraintValid(const TgE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == TgE_t_a)) || (((*(pVal)) == TgE_t_b)))) || (((*(pVal)) == TgE_t_c)));
    *pErrCode = ret ? 0 :  ERR_TGE;

	return ret;
}

void TgE_Initialize(TgE* pVal)
{
	(void)pVal;


	(*(pVal)) = TgE_t_a;
}

flag TgE_ACN_Encode(const TgE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? TgE_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case TgE_t_a:
	            intVal_pVal = 5UL;
	            break;
	        case TgE_t_b:
	            intVal_pVal = 6UL;
	            break;
	        case TgE_t_c:
	            intVal_pVal = 200UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_TGE;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, intVal_pVal);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag TgE_ACN_Decode(TgE* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(intVal_pVal)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_TGE;
	if (ret) {
	    switch (intVal_pVal) {
	        case 5:
	            (*(pVal)) = TgE_t_a;
	            break;
	        case 6:
	            (*(pVal)) = TgE_t_b;
	            break;
	        case 200:
	            (*(pVal)) = TgE_t_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_TGE;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && TgE_IsConstraintValid(pVal, pErrCode);
}


flag PCE_t_b_Equal(const PCE_t_b* pVal1, const PCE_t_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCE_Equal(const PCE* pVal1, const PCE* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case PCE_t_a_PRESENT:
    		ret = (pVal1->u.t_a == pVal2->u.t_a);
    		break;
    	case PCE_t_b_PRESENT:
    		ret = PCE_t_b_Equal((&(pVal1->u.t_b)), (&(pVal2->u.t_b)));
    		break;
    	case PCE_t_c_PRESENT:
    		ret = (pVal1->u.t_c == pVal2->u.t_c);
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCE_t_b_IsConstraintValid(const PCE_t_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_PCE_T_B;

	return ret;
}

flag PCE_IsConstraintValid(const PCE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case PCE_t_a_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.t_a)), pErrCode);
            break;          
        case PCE_t_b_PRESENT : 
            ret = PCE_t_b_IsConstraintValid((&(pVal->u.t_b)), pErrCode);
            break;          
        case PCE_t_c_PRESENT : 
            ret = P32_IsConstraintValid((&(pVal->u.t_c)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCE;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCE_t_b_Initialize(PCE_t_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 6);
	pVal->nCount = 0;

}
void PCE_Initialize(PCE* pVal)
{
	(void)pVal;


	pVal->kind = PCE_t_a_PRESENT;
	pVal->u.t_a = 0UL;
}


flag DChE_t_Equal(const DChE_t* pVal1, const DChE_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChE_Equal(const DChE* pVal1, const DChE* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCE_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChE_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChE_t_IsConstraintValid(const DChE_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHE_T;

	return ret;
}

flag DChE_IsConstraintValid(const DChE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCE_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChE_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChE_t_Initialize(DChE_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChE_Initialize(DChE* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCE_Initialize((&(pVal->b)));
	/*set t */
	DChE_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DCHE_H_2		2435  /**/
#define ERR_ACN_ENCODE_DCHE_H		2430  /**/
#define ERR_ACN_ENCODE_DCHE_H_V		2418  /**/
#define ERR_ACN_ENCODE_DCHE_H_E		2425  /**/

flag DChE_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChE_h_k);

flag DChE_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChE_h_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DChE_h_k */
        Acn_InitDet_U8(pBitStrm, DChE_h_k);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DCHE_B_2		2477  /**/
#define ERR_ACN_ENCODE_DCHE_B		2472  /**/
#define ERR_ACN_ENCODE_DCHE_B_T_A_2		2452  /**/
#define ERR_ACN_ENCODE_DCHE_B_T_B		2457  /**/
#define ERR_ACN_ENCODE_DCHE_B_T_C_2		2467  /**/

flag DChE_b_ACN_Encode(const PCE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChE_b_k);

flag DChE_b_ACN_Encode(const PCE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChE_b_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    switch(pVal->kind)
    {
        case PCE_t_a_PRESENT:
        	ret = P8_ACN_Encode((&(pVal->u.t_a)), pBitStrm, pErrCode, FALSE);
        	break;
        case PCE_t_b_PRESENT:
        	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->u.t_b.nCount, 0, 6);
        	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->u.t_b.arr, pVal->u.t_b.nCount);
        	break;
        case PCE_t_c_PRESENT:
        	ret = P32_ACN_Encode((&(pVal->u.t_c)), pBitStrm, pErrCode, FALSE);
        	break;
    default:
        *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
        ret = FALSE;                    /*COVERAGE_IGNORE*/
    }
    {
    asn1SccUint _patchDetVal;
    switch(pVal->kind) {
        case PCE_t_a_PRESENT: _patchDetVal = 5; break;
        case PCE_t_b_PRESENT: _patchDetVal = 6; break;
        case PCE_t_c_PRESENT: _patchDetVal = 200; break;
        default: ret = FALSE; break; /*COVERAGE_IGNORE*/
    }
    if (!ret) return FALSE;
    ret = Acn_PatchDet_U8((asn1SccUint)_patchDetVal, pBitStrm, DChE_b_k, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;
    }


    return ret;
}

flag DChE_ACN_Encode(const DChE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChE_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DChE_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &k);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DChE_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &k);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DCHE_H_2		2437  /**/
#define ERR_ACN_DECODE_DCHE_H		2431  /**/
#define ERR_ACN_DECODE_DCHE_H_V		2419  /**/
#define ERR_ACN_DECODE_DCHE_H_K		2421  /**/
#define ERR_ACN_DECODE_DCHE_H_E		2426  /**/
flag DChE_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChE_h_k);

flag DChE_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChE_h_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	TgE DChE_h_k_tmp;
	asn1SccUint intVal_DChE_h_k_tmp;

	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_H_V;
	if (ret) {
	    /*Decode DChE_h_k */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(intVal_DChE_h_k_tmp)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_H_K;
	    if (ret) {
	        switch (intVal_DChE_h_k_tmp) {
	            case 5:
	                DChE_h_k_tmp = TgE_t_a;
	                break;
	            case 6:
	                DChE_h_k_tmp = TgE_t_b;
	                break;
	            case 200:
	                DChE_h_k_tmp = TgE_t_c;
	                break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_DECODE_DCHE_H_K;                 /*COVERAGE_IGNORE*/
	        }
	    } /*COVERAGE_IGNORE*/
	    DChE_h_k->value = (asn1SccUint)DChE_h_k_tmp;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DCHE_B_2		2479  /**/
#define ERR_ACN_DECODE_DCHE_B		2473  /**/
#define ERR_ACN_DECODE_DCHE_B_T_A_2		2453  /**/
#define ERR_ACN_DECODE_DCHE_B_T_B		2458  /**/
#define ERR_ACN_DECODE_DCHE_B_T_C_2		2468  /**/
flag DChE_b_ACN_Decode(PCE* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChE_b_k);

flag DChE_b_ACN_Decode(PCE* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChE_b_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	switch(DChE_b_k->value)
	{
	    case 0:
	    	pVal->kind = PCE_t_a_PRESENT;
	    	ret = P8_ACN_Decode((&(pVal->u.t_a)), pBitStrm, pErrCode);
	    	break;
	    case 1:
	    	pVal->kind = PCE_t_b_PRESENT;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 6);
	    	if (ret) {
	    	    pVal->u.t_b.nCount = (long)nCount;
	    	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->u.t_b.arr, pVal->u.t_b.nCount);
	    	}
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_B_T_B;
	    	break;
	    case 2:
	    	pVal->kind = PCE_t_c_PRESENT;
	    	ret = P32_ACN_Decode((&(pVal->u.t_c)), pBitStrm, pErrCode);
	    	break;
	default:
	    *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	    ret = FALSE;                    /*COVERAGE_IGNORE*/
	}

    return ret;
}

flag DChE_ACN_Decode(DChE* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef k;

	/*Decode h */
	ret = DChE_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &k);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_M;
	    if (ret) {
	        /*Decode b */
	        ret = DChE_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &k);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChE_IsConstraintValid(pVal, pErrCode);
}


flag TgU_Equal(const TgU* pVal1, const TgU* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag TgU_IsConstraintValid(const TgU* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == TgU_t_a)) || (((*(pVal)) == TgU_t_b)))) || (((*(pVal)) == TgU_t_c)));
    *pErrCode = ret ? 0 :  ERR_TGU;

	return ret;
}

void TgU_Initialize(TgU* pVal)
{
	(void)pVal;


	(*(pVal)) = TgU_t_a;
}

flag TgU_ACN_Encode(const TgU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? TgU_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case TgU_t_a:
	            intVal_pVal = 0UL;
	            break;
	        case TgU_t_b:
	            intVal_pVal = 1UL;
	            break;
	        case TgU_t_c:
	            intVal_pVal = 2UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_TGU;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, intVal_pVal, 0, 2);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag TgU_ACN_Decode(TgU* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(intVal_pVal)), 0, 2);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_TGU;
	if (ret) {
	    switch (intVal_pVal) {
	        case 0:
	            (*(pVal)) = TgU_t_a;
	            break;
	        case 1:
	            (*(pVal)) = TgU_t_b;
	            break;
	        case 2:
	            (*(pVal)) = TgU_t_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_TGU;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && TgU_IsConstraintValid(pVal, pErrCode);
}


flag PCU_t_b_Equal(const PCU_t_b* pVal1, const PCU_t_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCU_Equal(const PCU* pVal1, const PCU* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case PCU_t_a_PRESENT:
    		ret = (pVal1->u.t_a == pVal2->u.t_a);
    		break;
    	case PCU_t_b_PRESENT:
    		ret = PCU_t_b_Equal((&(pVal1->u.t_b)), (&(pVal2->u.t_b)));
    		break;
    	case PCU_t_c_PRESENT:
    		ret = (pVal1->u.t_c == pVal2->u.t_c);
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCU_t_b_IsConstraintValid(const PCU_t_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_PCU_T_B;

	return ret;
}

flag PCU_IsConstraintValid(const PCU* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case PCU_t_a_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.t_a)), pErrCode);
            break;          
        case PCU_t_b_PRESENT : 
            ret = PCU_t_b_IsConstraintValid((&(pVal->u.t_b)), pErrCode);
            break;          
        case PCU_t_c_PRESENT : 
            ret = P32_IsConstraintValid((&(pVal->u.t_c)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCU;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCU_t_b_Initialize(PCU_t_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 6);
	pVal->nCount = 0;

}
void PCU_Initialize(PCU* pVal)
{
	(void)pVal;


	pVal->kind = PCU_t_a_PRESENT;
	pVal->u.t_a = 0UL;
}


flag DChU_t_Equal(const DChU_t* pVal1, const DChU_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChU_Equal(const DChU* pVal1, const DChU* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCU_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChU_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChU_t_IsConstraintValid(const DChU_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHU_T;

	return ret;
}

flag DChU_IsConstraintValid(const DChU* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCU_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChU_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChU_t_Initialize(DChU_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChU_Initialize(DChU* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCU_Initialize((&(pVal->b)));
	/*set t */
	DChU_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DCHU_H_2		2546  /**/
#define ERR_ACN_ENCODE_DCHU_H		2541  /**/
#define ERR_ACN_ENCODE_DCHU_H_V		2529  /**/
#define ERR_ACN_ENCODE_DCHU_H_E		2536  /**/

flag DChU_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChU_h_k);

flag DChU_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChU_h_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DChU_h_k */
        Acn_InitDet_ConstSize(pBitStrm, 2, DChU_h_k);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DCHU_B_2		2588  /**/
#define ERR_ACN_ENCODE_DCHU_B		2583  /**/
#define ERR_ACN_ENCODE_DCHU_B_T_A_2		2563  /**/
#define ERR_ACN_ENCODE_DCHU_B_T_B		2568  /**/
#define ERR_ACN_ENCODE_DCHU_B_T_C_2		2578  /**/

flag DChU_b_ACN_Encode(const PCU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChU_b_k);

flag DChU_b_ACN_Encode(const PCU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChU_b_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    switch(pVal->kind)
    {
        case PCU_t_a_PRESENT:
        	ret = P8_ACN_Encode((&(pVal->u.t_a)), pBitStrm, pErrCode, FALSE);
        	break;
        case PCU_t_b_PRESENT:
        	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->u.t_b.nCount, 0, 6);
        	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->u.t_b.arr, pVal->u.t_b.nCount);
        	break;
        case PCU_t_c_PRESENT:
        	ret = P32_ACN_Encode((&(pVal->u.t_c)), pBitStrm, pErrCode, FALSE);
        	break;
    default:
        *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
        ret = FALSE;                    /*COVERAGE_IGNORE*/
    }
    {
    asn1SccUint _patchDetVal;
    switch(pVal->kind) {
        case PCU_t_a_PRESENT: _patchDetVal = 0; break;
        case PCU_t_b_PRESENT: _patchDetVal = 1; break;
        case PCU_t_c_PRESENT: _patchDetVal = 2; break;
        default: ret = FALSE; break; /*COVERAGE_IGNORE*/
    }
    if (!ret) return FALSE;
    ret = Acn_PatchDet_ConstSize((asn1SccUint)_patchDetVal, pBitStrm, 2, DChU_b_k, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;
    }


    return ret;
}

flag DChU_ACN_Encode(const DChU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChU_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DChU_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &k);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DChU_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &k);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DCHU_H_2		2548  /**/
#define ERR_ACN_DECODE_DCHU_H		2542  /**/
#define ERR_ACN_DECODE_DCHU_H_V		2530  /**/
#define ERR_ACN_DECODE_DCHU_H_K		2532  /**/
#define ERR_ACN_DECODE_DCHU_H_E		2537  /**/
flag DChU_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChU_h_k);

flag DChU_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChU_h_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	TgU DChU_h_k_tmp;
	asn1SccUint intVal_DChU_h_k_tmp;

	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_H_V;
	if (ret) {
	    /*Decode DChU_h_k */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(intVal_DChU_h_k_tmp)), 0, 2);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_H_K;
	    if (ret) {
	        switch (intVal_DChU_h_k_tmp) {
	            case 0:
	                DChU_h_k_tmp = TgU_t_a;
	                break;
	            case 1:
	                DChU_h_k_tmp = TgU_t_b;
	                break;
	            case 2:
	                DChU_h_k_tmp = TgU_t_c;
	                break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_DECODE_DCHU_H_K;                 /*COVERAGE_IGNORE*/
	        }
	    } /*COVERAGE_IGNORE*/
	    DChU_h_k->value = (asn1SccUint)DChU_h_k_tmp;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DCHU_B_2		2590  /**/
#define ERR_ACN_DECODE_DCHU_B		2584  /**/
#define ERR_ACN_DECODE_DCHU_B_T_A_2		2564  /**/
#define ERR_ACN_DECODE_DCHU_B_T_B		2569  /**/
#define ERR_ACN_DECODE_DCHU_B_T_C_2		2579  /**/
flag DChU_b_ACN_Decode(PCU* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChU_b_k);

flag DChU_b_ACN_Decode(PCU* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChU_b_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	switch(DChU_b_k->value)
	{
	    case 0:
	    	pVal->kind = PCU_t_a_PRESENT;
	    	ret = P8_ACN_Decode((&(pVal->u.t_a)), pBitStrm, pErrCode);
	    	break;
	    case 1:
	    	pVal->kind = PCU_t_b_PRESENT;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 6);
	    	if (ret) {
	    	    pVal->u.t_b.nCount = (long)nCount;
	    	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->u.t_b.arr, pVal->u.t_b.nCount);
	    	}
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_B_T_B;
	    	break;
	    case 2:
	    	pVal->kind = PCU_t_c_PRESENT;
	    	ret = P32_ACN_Decode((&(pVal->u.t_c)), pBitStrm, pErrCode);
	    	break;
	default:
	    *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	    ret = FALSE;                    /*COVERAGE_IGNORE*/
	}

    return ret;
}

flag DChU_ACN_Decode(DChU* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef k;

	/*Decode h */
	ret = DChU_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &k);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_M;
	    if (ret) {
	        /*Decode b */
	        ret = DChU_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &k);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChU_IsConstraintValid(pVal, pErrCode);
}


flag TgN_Equal(const TgN* pVal1, const TgN* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag TgN_IsConstraintValid(const TgN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == TgN_t_a)) || (((*(pVal)) == TgN_t_b)))) || (((*(pVal)) == TgN_t_c)));
    *pErrCode = ret ? 0 :  ERR_TGN;

	return ret;
}

void TgN_Initialize(TgN* pVal)
{
	(void)pVal;


	(*(pVal)) = TgN_t_a;
}

flag TgN_ACN_Encode(const TgN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? TgN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case TgN_t_a:
	            intVal_pVal = -3LL;
	            break;
	        case TgN_t_b:
	            intVal_pVal = 0LL;
	            break;
	        case TgN_t_c:
	            intVal_pVal = 900LL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_TGN;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, intVal_pVal, 12);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag TgN_ACN_Decode(TgN* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint intVal_pVal;

	ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(intVal_pVal)), 12);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_TGN;
	if (ret) {
	    switch (intVal_pVal) {
	        case -3:
	            (*(pVal)) = TgN_t_a;
	            break;
	        case 0:
	            (*(pVal)) = TgN_t_b;
	            break;
	        case 900:
	            (*(pVal)) = TgN_t_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_TGN;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && TgN_IsConstraintValid(pVal, pErrCode);
}


flag PCN_t_b_Equal(const PCN_t_b* pVal1, const PCN_t_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCN_Equal(const PCN* pVal1, const PCN* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case PCN_t_a_PRESENT:
    		ret = (pVal1->u.t_a == pVal2->u.t_a);
    		break;
    	case PCN_t_b_PRESENT:
    		ret = PCN_t_b_Equal((&(pVal1->u.t_b)), (&(pVal2->u.t_b)));
    		break;
    	case PCN_t_c_PRESENT:
    		ret = (pVal1->u.t_c == pVal2->u.t_c);
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCN_t_b_IsConstraintValid(const PCN_t_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_PCN_T_B;

	return ret;
}

flag PCN_IsConstraintValid(const PCN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case PCN_t_a_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.t_a)), pErrCode);
            break;          
        case PCN_t_b_PRESENT : 
            ret = PCN_t_b_IsConstraintValid((&(pVal->u.t_b)), pErrCode);
            break;          
        case PCN_t_c_PRESENT : 
            ret = P32_IsConstraintValid((&(pVal->u.t_c)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCN;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCN_t_b_Initialize(PCN_t_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 6);
	pVal->nCount = 0;

}
void PCN_Initialize(PCN* pVal)
{
	(void)pVal;


	pVal->kind = PCN_t_a_PRESENT;
	pVal->u.t_a = 0UL;
}


flag DChN_t_Equal(const DChN_t* pVal1, const DChN_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChN_Equal(const DChN* pVal1, const DChN* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCN_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChN_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChN_t_IsConstraintValid(const DChN_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHN_T;

	return ret;
}

flag DChN_IsConstraintValid(const DChN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCN_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChN_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChN_t_Initialize(DChN_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChN_Initialize(DChN* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCN_Initialize((&(pVal->b)));
	/*set t */
	DChN_t_Initialize((&(pVal->t)));
}

#define ERR_ACN_ENCODE_DCHN_H_2		2657  /**/
#define ERR_ACN_ENCODE_DCHN_H		2652  /**/
#define ERR_ACN_ENCODE_DCHN_H_V		2640  /**/
#define ERR_ACN_ENCODE_DCHN_H_E		2647  /**/

flag DChN_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChN_h_k);

flag DChN_h_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChN_h_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    /*Encode v */
    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
    if (ret) {
        /*Encode DChN_h_k */
        Acn_InitDet_TwosComplement_ConstSize(pBitStrm, 12, DChN_h_k);
        if (ret) {
            /*Encode e */
            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_ENCODE_DCHN_B_2		2699  /**/
#define ERR_ACN_ENCODE_DCHN_B		2694  /**/
#define ERR_ACN_ENCODE_DCHN_B_T_A_2		2674  /**/
#define ERR_ACN_ENCODE_DCHN_B_T_B		2679  /**/
#define ERR_ACN_ENCODE_DCHN_B_T_C_2		2689  /**/

flag DChN_b_ACN_Encode(const PCN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChN_b_k);

flag DChN_b_ACN_Encode(const PCN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints, AcnInsertedFieldRef* DChN_b_k)
{
    flag ret = TRUE;

    *pErrCode = 0;
    (void)bCheckConstraints;

    switch(pVal->kind)
    {
        case PCN_t_a_PRESENT:
        	ret = P8_ACN_Encode((&(pVal->u.t_a)), pBitStrm, pErrCode, FALSE);
        	break;
        case PCN_t_b_PRESENT:
        	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->u.t_b.nCount, 0, 6);
        	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->u.t_b.arr, pVal->u.t_b.nCount);
        	break;
        case PCN_t_c_PRESENT:
        	ret = P32_ACN_Encode((&(pVal->u.t_c)), pBitStrm, pErrCode, FALSE);
        	break;
    default:
        *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
        ret = FALSE;                    /*COVERAGE_IGNORE*/
    }
    {
    asn1SccUint _patchDetVal;
    switch(pVal->kind) {
        case PCN_t_a_PRESENT: _patchDetVal = -3; break;
        case PCN_t_b_PRESENT: _patchDetVal = 0; break;
        case PCN_t_c_PRESENT: _patchDetVal = 900; break;
        default: ret = FALSE; break; /*COVERAGE_IGNORE*/
    }
    if (!ret) return FALSE;
    ret = Acn_PatchDet_TwosComplement_ConstSize((asn1SccUint)_patchDetVal, pBitStrm, 12, DChN_b_k, pErrCode);
    *pErrCode = ERR_ACN_DET_CONSISTENCY_MISMATCH;
    if (!ret) return FALSE;
    }


    return ret;
}

flag DChN_ACN_Encode(const DChN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	AcnInsertedFieldRef k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    ret = DChN_h_ACN_Encode((&(pVal->h)), pBitStrm, pErrCode, FALSE, &k);
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = DChN_b_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE, &k);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

#define ERR_ACN_DECODE_DCHN_H_2		2659  /**/
#define ERR_ACN_DECODE_DCHN_H		2653  /**/
#define ERR_ACN_DECODE_DCHN_H_V		2641  /**/
#define ERR_ACN_DECODE_DCHN_H_K		2643  /**/
#define ERR_ACN_DECODE_DCHN_H_E		2648  /**/
flag DChN_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChN_h_k);

flag DChN_h_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChN_h_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	TgN DChN_h_k_tmp;
	asn1SccSint intVal_DChN_h_k_tmp;

	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_H_V;
	if (ret) {
	    /*Decode DChN_h_k */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(intVal_DChN_h_k_tmp)), 12);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_H_K;
	    if (ret) {
	        switch (intVal_DChN_h_k_tmp) {
	            case -3:
	                DChN_h_k_tmp = TgN_t_a;
	                break;
	            case 0:
	                DChN_h_k_tmp = TgN_t_b;
	                break;
	            case 900:
	                DChN_h_k_tmp = TgN_t_c;
	                break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_DECODE_DCHN_H_K;                 /*COVERAGE_IGNORE*/
	        }
	    } /*COVERAGE_IGNORE*/
	    DChN_h_k->value = (asn1SccUint)DChN_h_k_tmp;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret;
}

#define ERR_ACN_DECODE_DCHN_B_2		2701  /**/
#define ERR_ACN_DECODE_DCHN_B		2695  /**/
#define ERR_ACN_DECODE_DCHN_B_T_A_2		2675  /**/
#define ERR_ACN_DECODE_DCHN_B_T_B		2680  /**/
#define ERR_ACN_DECODE_DCHN_B_T_C_2		2690  /**/
flag DChN_b_ACN_Decode(PCN* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChN_b_k);

flag DChN_b_ACN_Decode(PCN* pVal, BitStream* pBitStrm, int* pErrCode, AcnInsertedFieldRef* DChN_b_k)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	switch(DChN_b_k->value)
	{
	    case -3:
	    	pVal->kind = PCN_t_a_PRESENT;
	    	ret = P8_ACN_Decode((&(pVal->u.t_a)), pBitStrm, pErrCode);
	    	break;
	    case 0:
	    	pVal->kind = PCN_t_b_PRESENT;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 6);
	    	if (ret) {
	    	    pVal->u.t_b.nCount = (long)nCount;
	    	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->u.t_b.arr, pVal->u.t_b.nCount);
	    	}
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_B_T_B;
	    	break;
	    case 900:
	    	pVal->kind = PCN_t_c_PRESENT;
	    	ret = P32_ACN_Decode((&(pVal->u.t_c)), pBitStrm, pErrCode);
	    	break;
	default:
	    *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	    ret = FALSE;                    /*COVERAGE_IGNORE*/
	}

    return ret;
}

flag DChN_ACN_Decode(DChN* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	AcnInsertedFieldRef k;

	/*Decode h */
	ret = DChN_h_ACN_Decode((&(pVal->h)), pBitStrm, pErrCode, &k);
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_M;
	    if (ret) {
	        /*Decode b */
	        ret = DChN_b_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode, &k);
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChN_IsConstraintValid(pVal, pErrCode);
}


flag DAll_x_Equal(const DAll_x* pVal1, const DAll_x* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DAll_b_Equal(const DAll_b* pVal1, const DAll_b* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = DW12_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag DAll_Equal(const DAll* pVal1, const DAll* pVal2)
{
	flag ret=TRUE;

    ret = DAll_x_Equal((&(pVal1->x)), (&(pVal2->x)));

    if (ret) {
        ret = (pVal1->exist.a == pVal2->exist.a);
        if (ret && pVal1->exist.a) {
        	ret = DSh_Equal((&(pVal1->a)), (&(pVal2->a)));
        }

        if (ret) {
            ret = DAll_b_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DFwd_Equal((&(pVal1->c)), (&(pVal2->c)));

                if (ret) {
                    ret = DCo_Equal((&(pVal1->d)), (&(pVal2->d)));

                    if (ret) {
                        ret = DChN_Equal((&(pVal1->e)), (&(pVal2->e)));

                        if (ret) {
                            ret = DPrB_Equal((&(pVal1->f)), (&(pVal2->f)));

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag DAll_x_IsConstraintValid(const DAll_x* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_DALL_X;

	return ret;
}

flag DAll_b_IsConstraintValid(const DAll_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_DALL_B;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = DW12_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag DAll_IsConstraintValid(const DAll* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DAll_x_IsConstraintValid((&(pVal->x)), pErrCode);
    if (ret) {
        if (pVal->exist.a) {
        	ret = DSh_IsConstraintValid((&(pVal->a)), pErrCode);
        }
        if (ret) {
            ret = DAll_b_IsConstraintValid((&(pVal->b)), pErrCode);
            if (ret) {
                ret = DFwd_IsConstraintValid((&(pVal->c)), pErrCode);
                if (ret) {
                    ret = DCo_IsConstraintValid((&(pVal->d)), pErrCode);
                    if (ret) {
                        ret = DChN_IsConstraintValid((&(pVal->e)), pErrCode);
                        if (ret) {
                            ret = DPrB_IsConstraintValid((&(pVal->f)), pErrCode);
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DAll_x_Initialize(DAll_x* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DAll_b_Initialize(DAll_b* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    DW12_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void DAll_Initialize(DAll* pVal)
{
	(void)pVal;


	/*set x */
	DAll_x_Initialize((&(pVal->x)));
	/*set a */
	pVal->exist.a = 1;
	DSh_Initialize((&(pVal->a)));
	/*set b */
	DAll_b_Initialize((&(pVal->b)));
	/*set c */
	DFwd_Initialize((&(pVal->c)));
	/*set d */
	DCo_Initialize((&(pVal->d)));
	/*set e */
	DChN_Initialize((&(pVal->e)));
	/*set f */
	DPrB_Initialize((&(pVal->f)));
}

flag DAll_ACN_Encode(const DAll* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DAll_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.a);
	    if (ret) {
	        /*Encode x */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->x, 0, 7);
	        if (ret) {
	            /*Encode a */
	            if (pVal->exist.a) {
	            	ret = DSh_ACN_Encode((&(pVal->a)), pBitStrm, pErrCode, FALSE);
	            }
	            if (ret) {
	                /*Encode b */
	                BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->b.nCount, 0, 4);
	                for(i1=0; (i1 < (int)pVal->b.nCount) && ret; i1++)
	                {
	                	ret = DW12_ACN_Encode((&(pVal->b.arr[i1])), pBitStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode c */
	                    ret = DFwd_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode d */
	                        ret = DCo_ACN_Encode((&(pVal->d)), pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode e */
	                            ret = DChN_ACN_Encode((&(pVal->e)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode f */
	                                ret = DPrB_ACN_Encode((&(pVal->f)), pBitStrm, pErrCode, FALSE);
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DAll_ACN_Decode(DAll* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag a_exist;
	int i1;
	asn1SccSint nCount;

	ret = BitStream_ReadBit(pBitStrm, &a_exist);
	pVal->exist.a = a_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DALL;
	if (ret) {
	    /*Decode x */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->x)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DALL_X;
	    if (ret) {
	        /*Decode a */
	        if (pVal->exist.a) {
	        	ret = DSh_ACN_Decode((&(pVal->a)), pBitStrm, pErrCode);
	        }
	        if (ret) {
	            /*Decode b */
	            ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 4);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DALL_B;
	            pVal->b.nCount = (long)nCount;
	            for(i1=0; (i1 < (int)pVal->b.nCount) && ret; i1++)
	            {
	            	ret = DW12_ACN_Decode((&(pVal->b.arr[i1])), pBitStrm, pErrCode);
	            }
	            if (ret) {
	                /*Decode c */
	                ret = DFwd_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode d */
	                    ret = DCo_ACN_Decode((&(pVal->d)), pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode e */
	                        ret = DChN_ACN_Decode((&(pVal->e)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode f */
	                            ret = DPrB_ACN_Decode((&(pVal->f)), pBitStrm, pErrCode);
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DAll_IsConstraintValid(pVal, pErrCode);
}


