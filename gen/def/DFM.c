/*
Code automatically generated by asn1scc tool
*/
#include <limits.h>
#include <string.h>
#include <math.h>

#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"

#include "DFM.h"


flag DHdr_v_Equal(const DHdr_v* pVal1, const DHdr_v* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DHdr_e_Equal(const DHdr_e* pVal1, const DHdr_e* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DHdr_Equal(const DHdr* pVal1, const DHdr* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_v_Equal((&(pVal1->v)), (&(pVal2->v)));

    if (ret) {
        ret = DHdr_e_Equal((&(pVal1->e)), (&(pVal2->e)));

    }

	return ret;

}

flag DHdr_v_IsConstraintValid(const DHdr_v* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_DHDR_V;

	return ret;
}

flag DHdr_e_IsConstraintValid(const DHdr_e* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_DHDR_E;

	return ret;
}

flag DHdr_IsConstraintValid(const DHdr* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_v_IsConstraintValid((&(pVal->v)), pErrCode);
    if (ret) {
        ret = DHdr_e_IsConstraintValid((&(pVal->e)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DHdr_v_Initialize(DHdr_v* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DHdr_e_Initialize(DHdr_e* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DHdr_Initialize(DHdr* pVal)
{
	(void)pVal;


	/*set v */
	DHdr_v_Initialize((&(pVal->v)));
	/*set e */
	DHdr_e_Initialize((&(pVal->e)));
}

flag DHdr_ACN_Encode(const DHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? DHdr_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->v, 0, 7);
	    if (ret) {
	        /*Encode e */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e, 0, 3);
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DHdr_ACN_Decode(DHdr* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DHDR_V;
	if (ret) {
	    /*Decode e */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e)), 0, 3);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DHDR_E;
	}   /*COVERAGE_IGNORE*/

    return ret && DHdr_IsConstraintValid(pVal, pErrCode);
}


flag P5_Equal(const P5* pVal1, const P5* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P5_IsConstraintValid(const P5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_P5;

	return ret;
}

void P5_Initialize(P5* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P5_ACN_Encode(const P5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, (*(pVal)), 5);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P5_ACN_Decode(P5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, pVal, 5);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P5;

    return ret && P5_IsConstraintValid(pVal, pErrCode);
}


flag QB_s_Equal(const QB_s* pVal1, const QB_s* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag QB_y_Equal(const QB_y* pVal1, const QB_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag QB_Equal(const QB* pVal1, const QB* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = QB_s_Equal((&(pVal1->s)), (&(pVal2->s)));

        if (ret) {
            ret = QB_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag QB_s_IsConstraintValid(const QB_s* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 9);
    *pErrCode = ret ? 0 :  ERR_QB_S;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = P5_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag QB_y_IsConstraintValid(const QB_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_QB_Y;

	return ret;
}

flag QB_IsConstraintValid(const QB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = QB_s_IsConstraintValid((&(pVal->s)), pErrCode);
    if (ret) {
        ret = QB_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void QB_s_Initialize(QB_s* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 9) {
	    pVal->arr[i1] = 0UL;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void QB_y_Initialize(QB_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void QB_Initialize(QB* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set s */
	QB_s_Initialize((&(pVal->s)));
	/*set y */
	QB_y_Initialize((&(pVal->y)));
}


flag DW5_t_Equal(const DW5_t* pVal1, const DW5_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW5_Equal(const DW5* pVal1, const DW5* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW5_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW5_t_IsConstraintValid(const DW5_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW5_T;

	return ret;
}

flag DW5_IsConstraintValid(const DW5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW5_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW5_t_Initialize(DW5_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW5_Initialize(DW5* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DW5_t_Initialize((&(pVal->t)));
}

flag DW5_ACN_Encode(const DW5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW5_h_n;
	flag DW5_h_n_is_initialized=FALSE;
	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW5_h_n_is_initialized = TRUE;
	        DW5_h_n = pVal->b.s.nCount;
	        if (ret) {
	            /*Encode DW5_h_n */
	            if (DW5_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DW5_h_n, 5);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW5_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Encode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW5_ACN_Decode(DW5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW5_h_n;
	int i1;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_H_V;
	if (ret) {
	    /*Decode DW5_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DW5_h_n)), 5);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = ((DW5_h_n<=9));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_B_S;
	            if (ret) {
	                pVal->b.s.nCount = (int)DW5_h_n;
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Decode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode);
	                }
	            }
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW5_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW5_IsConstraintValid(pVal, pErrCode);
}


flag DW16_t_Equal(const DW16_t* pVal1, const DW16_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW16_Equal(const DW16* pVal1, const DW16* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW16_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW16_t_IsConstraintValid(const DW16_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW16_T;

	return ret;
}

flag DW16_IsConstraintValid(const DW16* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW16_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW16_t_Initialize(DW16_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW16_Initialize(DW16* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DW16_t_Initialize((&(pVal->t)));
}

flag DW16_ACN_Encode(const DW16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW16_h_n;
	flag DW16_h_n_is_initialized=FALSE;
	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW16_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW16_h_n_is_initialized = TRUE;
	        DW16_h_n = pVal->b.s.nCount;
	        if (ret) {
	            /*Encode DW16_h_n */
	            if (DW16_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, DW16_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW16_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Encode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW16_ACN_Decode(DW16* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW16_h_n;
	int i1;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_H_V;
	if (ret) {
	    /*Decode DW16_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(DW16_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = ((DW16_h_n<=9));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_B_S;
	            if (ret) {
	                pVal->b.s.nCount = (int)DW16_h_n;
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Decode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode);
	                }
	            }
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW16_IsConstraintValid(pVal, pErrCode);
}


flag DW64_t_Equal(const DW64_t* pVal1, const DW64_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW64_Equal(const DW64* pVal1, const DW64* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW64_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW64_t_IsConstraintValid(const DW64_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW64_T;

	return ret;
}

flag DW64_IsConstraintValid(const DW64* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW64_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW64_t_Initialize(DW64_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW64_Initialize(DW64* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DW64_t_Initialize((&(pVal->t)));
}

flag DW64_ACN_Encode(const DW64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW64_h_n;
	flag DW64_h_n_is_initialized=FALSE;
	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW64_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW64_h_n_is_initialized = TRUE;
	        DW64_h_n = pVal->b.s.nCount;
	        if (ret) {
	            /*Encode DW64_h_n */
	            if (DW64_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, DW64_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW64_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Encode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW64_ACN_Decode(DW64* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW64_h_n;
	int i1;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_H_V;
	if (ret) {
	    /*Decode DW64_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, (&(DW64_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = ((DW64_h_n<=9));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_B_S;
	            if (ret) {
	                pVal->b.s.nCount = (int)DW64_h_n;
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Decode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode);
	                }
	            }
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW64_IsConstraintValid(pVal, pErrCode);
}


flag DI11_t_Equal(const DI11_t* pVal1, const DI11_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI11_Equal(const DI11* pVal1, const DI11* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI11_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI11_t_IsConstraintValid(const DI11_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI11_T;

	return ret;
}

flag DI11_IsConstraintValid(const DI11* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI11_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI11_t_Initialize(DI11_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI11_Initialize(DI11* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set t */
	DI11_t_Initialize((&(pVal->t)));
}

flag DI11_ACN_Encode(const DI11* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint DI11_h_n;
	flag DI11_h_n_is_initialized=FALSE;
	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI11_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DI11_h_n_is_initialized = TRUE;
	        DI11_h_n = pVal->b.s.nCount;
	        if (ret) {
	            /*Encode DI11_h_n */
	            if (DI11_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, DI11_h_n, 11);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DI11_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Encode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DI11_ACN_Decode(DI11* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint DI11_h_n;
	int i1;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_H_V;
	if (ret) {
	    /*Decode DI11_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(DI11_h_n)), 11);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = ((0<=DI11_h_n) && (DI11_h_n<=9));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_B_S;
	            if (ret) {
	                pVal->b.s.nCount = (int)DI11_h_n;
	                for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	                {
	                	ret = P5_ACN_Decode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode);
	                }
	            }
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI11_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI11_IsConstraintValid(pVal, pErrCode);
}


flag CQ_a_Equal(const CQ_a* pVal1, const CQ_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CQ_Equal(const CQ* pVal1, const CQ* pVal2)
{
	flag ret=TRUE;

    ret = CQ_a_Equal((&(pVal1->a)), (&(pVal2->a)));

    if (ret) {
        ret = (pVal1->b == pVal2->b);

        if (ret) {
            ret = (pVal1->exist.c == pVal2->exist.c);
            if (ret && pVal1->exist.c) {
            	ret = (pVal1->c == pVal2->c);
            }

        }

    }

	return ret;

}

flag CQ_a_IsConstraintValid(const CQ_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CQ_A;

	return ret;
}

flag CQ_IsConstraintValid(const CQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CQ_a_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        if (pVal->exist.c) {
        	ret = P5_IsConstraintValid((&(pVal->c)), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CQ_a_Initialize(CQ_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CQ_Initialize(CQ* pVal)
{
	(void)pVal;


	/*set a */
	CQ_a_Initialize((&(pVal->a)));
	/*set b */
	pVal->b = FALSE;
	/*set c */
	pVal->exist.c = 1;
	P5_Initialize((&(pVal->c)));
}

flag CQ_ACN_Encode(const CQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? CQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.c);
	    if (ret) {
	        /*Encode a */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a, 0, 7);
	        if (ret) {
	            /*Encode b */
	            BitStream_AppendBit(pBitStrm,pVal->b);
	            if (ret) {
	                /*Encode c */
	                if (pVal->exist.c) {
	                	ret = P5_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
	                }
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CQ_ACN_Decode(CQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag c_exist;

	ret = BitStream_ReadBit(pBitStrm, &c_exist);
	pVal->exist.c = c_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CQ;
	if (ret) {
	    /*Decode a */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_CQ_A;
	    if (ret) {
	        /*Decode b */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_CQ_B;
	        if (ret) {
	            /*Decode c */
	            if (pVal->exist.c) {
	            	ret = P5_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && CQ_IsConstraintValid(pVal, pErrCode);
}


flag DCoQ_t_Equal(const DCoQ_t* pVal1, const DCoQ_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DCoQ_Equal(const DCoQ* pVal1, const DCoQ* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = CQ_Equal((&(pVal1->p)), (&(pVal2->p)));

        if (ret) {
            ret = DCoQ_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DCoQ_t_IsConstraintValid(const DCoQ_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCOQ_T;

	return ret;
}

flag DCoQ_IsConstraintValid(const DCoQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = CQ_IsConstraintValid((&(pVal->p)), pErrCode);
        if (ret) {
            ret = DCoQ_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DCoQ_t_Initialize(DCoQ_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DCoQ_Initialize(DCoQ* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set p */
	CQ_Initialize((&(pVal->p)));
	/*set t */
	DCoQ_t_Initialize((&(pVal->t)));
}

flag DCoQ_ACN_Encode(const DCoQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DCoQ_h_len;
	flag DCoQ_h_len_is_initialized=FALSE;
	byte arr[CQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	BitStream bitStrm;
    *pErrCode = 0;
	ret = bCheckConstraints ? DCoQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        {
	            /*first encode containing type to a temporary bitstream. That's the only way to learn in advance the size of the encoding octet string*/
	            BitStream_Init(&bitStrm, arr, sizeof(arr));
	            BitStream* pBitStrm_save = pBitStrm;
	            pBitStrm = &bitStrm;
	            BitStream_AppendBit(pBitStrm,pVal->p.exist.c);
	            if (ret) {
	                /*Encode a */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->p.a, 0, 7);
	                if (ret) {
	                    /*Encode b */
	                    BitStream_AppendBit(pBitStrm,pVal->p.b);
	                    if (ret) {
	                        /*Encode c */
	                        if (pVal->p.exist.c) {
	                        	ret = P5_ACN_Encode((&(pVal->p.c)), pBitStrm, pErrCode, FALSE);
	                        }
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            pBitStrm = pBitStrm_save;
	        }
	        if (ret) {
	        	DCoQ_h_len = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	        	DCoQ_h_len_is_initialized = TRUE;
	        }

	        if (ret) {
	            /*Encode DCoQ_h_len */
	            if (DCoQ_h_len_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DCoQ_h_len, 6);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DCOQ_H_LEN_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode p */
	        ret = BitStream_EncodeOctetString_no_length(pBitStrm, arr, (int)DCoQ_h_len);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DCoQ_ACN_Decode(DCoQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DCoQ_h_len;
	flag c_exist;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_H_V;
	if (ret) {
	    /*Decode DCoQ_h_len */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DCoQ_h_len)), 6);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_H_LEN;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode p */
	    /*open new scope to declare some variables*/
	    {
	    	
	    	byte arr[CQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	        BitStream* pBitStrm_save = pBitStrm;
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));
	    	ret = (asn1SccUint)(DCoQ_h_len) <= CQ_REQUIRED_BYTES_FOR_ACN_ENCODING;
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_2;
	    	if (ret) {
	    		/*decode to the temporary bitstream buffer */
	    		ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, (int)DCoQ_h_len);
	    		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_2;
	    		if (ret) {
	                bitStrm.count = (long)DCoQ_h_len;
	                pBitStrm = &bitStrm;
	                ret = BitStream_ReadBit(pBitStrm, &c_exist);
	                pVal->p.exist.c = c_exist == 0 ? 0 : 1;
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P;
	                if (ret) {
	                    /*Decode a */
	                    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->p.a)), 0, 7);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_A;
	                    if (ret) {
	                        /*Decode b */
	                        ret = BitStream_ReadBit(pBitStrm, (&(pVal->p.b)));
	                        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_P_B;
	                        if (ret) {
	                            /*Decode c */
	                            if (pVal->p.exist.c) {
	                            	ret = P5_ACN_Decode((&(pVal->p.c)), pBitStrm, pErrCode);
	                            }
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	    			//ret = CQ_ACN_Decode((&(pVal->p)), &bitStrm, pErrCode);
	                pBitStrm = pBitStrm_save;
	    		}
	    	}
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOQ_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DCoQ_IsConstraintValid(pVal, pErrCode);
}


flag DCoB_t_Equal(const DCoB_t* pVal1, const DCoB_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DCoB_Equal(const DCoB* pVal1, const DCoB* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = CQ_Equal((&(pVal1->p)), (&(pVal2->p)));

        if (ret) {
            ret = DCoB_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DCoB_t_IsConstraintValid(const DCoB_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCOB_T;

	return ret;
}

flag DCoB_IsConstraintValid(const DCoB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = CQ_IsConstraintValid((&(pVal->p)), pErrCode);
        if (ret) {
            ret = DCoB_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DCoB_t_Initialize(DCoB_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DCoB_Initialize(DCoB* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set p */
	CQ_Initialize((&(pVal->p)));
	/*set t */
	DCoB_t_Initialize((&(pVal->t)));
}

flag DCoB_ACN_Encode(const DCoB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DCoB_h_len;
	flag DCoB_h_len_is_initialized=FALSE;
	byte arr[CQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	BitStream bitStrm;
    *pErrCode = 0;
	ret = bCheckConstraints ? DCoB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        {
	            /*first encode containing type to a temporary bitstream. That's the only way to learn in advance the size of the encoding octet string*/
	            BitStream_Init(&bitStrm, arr, sizeof(arr));
	            BitStream* pBitStrm_save = pBitStrm;
	            pBitStrm = &bitStrm;
	            BitStream_AppendBit(pBitStrm,pVal->p.exist.c);
	            if (ret) {
	                /*Encode a */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->p.a, 0, 7);
	                if (ret) {
	                    /*Encode b */
	                    BitStream_AppendBit(pBitStrm,pVal->p.b);
	                    if (ret) {
	                        /*Encode c */
	                        if (pVal->p.exist.c) {
	                        	ret = P5_ACN_Encode((&(pVal->p.c)), pBitStrm, pErrCode, FALSE);
	                        }
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            pBitStrm = pBitStrm_save;
	        }
	        if (ret) {
	        	DCoB_h_len = bitStrm.currentByte*8+bitStrm.currentBit;
	        	DCoB_h_len_is_initialized = TRUE;
	        }

	        if (ret) {
	            /*Encode DCoB_h_len */
	            if (DCoB_h_len_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DCoB_h_len, 6);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DCOB_H_LEN_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode p */
	        BitStream_AppendBits(pBitStrm, arr, (int)DCoB_h_len);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DCoB_ACN_Decode(DCoB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DCoB_h_len;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_H_V;
	if (ret) {
	    /*Decode DCoB_h_len */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DCoB_h_len)), 6);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_H_LEN;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode p */
	    /*open new scope to declare some variables*/
	    {
	    	/*decode to a temporary bitstream*/
	    	byte arr[CQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));
	    	ret = (asn1SccUint)(DCoB_h_len) <= CQ_REQUIRED_BITS_FOR_ACN_ENCODING;
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_P_2;
	    	if (ret) {
	    		ret = BitStream_ReadBits(pBitStrm, arr, (int)DCoB_h_len);
	    		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_P_2;
	    		if (ret) {
	    			bitStrm.count = ((long)DCoB_h_len + 7) / 8;
	    			ret = CQ_ACN_Decode((&(pVal->p)), &bitStrm, pErrCode);
	    		}
	    	}
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCOB_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DCoB_IsConstraintValid(pVal, pErrCode);
}


flag P8_Equal(const P8* pVal1, const P8* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P8_IsConstraintValid(const P8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 255UL);
    *pErrCode = ret ? 0 :  ERR_P8;

	return ret;
}

void P8_Initialize(P8* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P8_ACN_Encode(const P8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P8_ACN_Decode(P8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P8;

    return ret && P8_IsConstraintValid(pVal, pErrCode);
}


flag PB_x_Equal(const PB_x* pVal1, const PB_x* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag PB_Equal(const PB* pVal1, const PB* pVal2)
{
	flag ret=TRUE;

    ret = PB_x_Equal((&(pVal1->x)), (&(pVal2->x)));

    if (ret) {
        ret = (pVal1->exist.o == pVal2->exist.o);
        if (ret && pVal1->exist.o) {
        	ret = (pVal1->o == pVal2->o);
        }

        if (ret) {
            ret = (pVal1->z == pVal2->z);

        }

    }

	return ret;

}

flag PB_x_IsConstraintValid(const PB_x* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_PB_X;

	return ret;
}

flag PB_IsConstraintValid(const PB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = PB_x_IsConstraintValid((&(pVal->x)), pErrCode);
    if (ret) {
        if (pVal->exist.o) {
        	ret = P8_IsConstraintValid((&(pVal->o)), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void PB_x_Initialize(PB_x* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void PB_Initialize(PB* pVal)
{
	(void)pVal;


	/*set x */
	PB_x_Initialize((&(pVal->x)));
	/*set o */
	pVal->exist.o = 1;
	P8_Initialize((&(pVal->o)));
	/*set z */
	pVal->z = FALSE;
}


flag DPrB_t_Equal(const DPrB_t* pVal1, const DPrB_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DPrB_Equal(const DPrB* pVal1, const DPrB* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DPrB_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DPrB_t_IsConstraintValid(const DPrB_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DPRB_T;

	return ret;
}

flag DPrB_IsConstraintValid(const DPrB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DPrB_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DPrB_t_Initialize(DPrB_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DPrB_Initialize(DPrB* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PB_Initialize((&(pVal->b)));
	/*set t */
	DPrB_t_Initialize((&(pVal->t)));
}

flag DPrB_ACN_Encode(const DPrB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	flag DPrB_h_f;
	flag DPrB_h_f_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DPrB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DPrB_h_f_is_initialized = TRUE;
	        DPrB_h_f = (pVal->b.exist.o == 1);
	        if (ret) {
	            /*Encode DPrB_h_f */
	            if (DPrB_h_f_is_initialized) {
	                ret = TRUE;
	                BitStream_AppendBit(pBitStrm,DPrB_h_f);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DPRB_H_F_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.x, 0, 7);
	            if (ret) {
	                /*Encode o */
	                if (pVal->b.exist.o) {
	                	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->b.o);
	                }
	                if (ret) {
	                    /*Encode z */
	                    BitStream_AppendBit(pBitStrm,pVal->b.z);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DPrB_ACN_Decode(DPrB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag DPrB_h_f;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_H_V;
	if (ret) {
	    /*Decode DPrB_h_f */
	    ret = BitStream_ReadBit(pBitStrm, (&(DPrB_h_f)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_H_F;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.x)), 0, 7);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_B_X;
	        if (ret) {
	            pVal->b.exist.o = DPrB_h_f ? 1 : 0;
	            /*Decode o */
	            if (pVal->b.exist.o) {
	            	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->b.o)));
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_B_O;
	            }
	            if (ret) {
	                /*Decode z */
	                ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.z)));
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_B_Z;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPRB_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DPrB_IsConstraintValid(pVal, pErrCode);
}


flag DShP_t_Equal(const DShP_t* pVal1, const DShP_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DShP_Equal(const DShP* pVal1, const DShP* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = PB_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = PB_Equal((&(pVal1->c)), (&(pVal2->c)));

            if (ret) {
                ret = DShP_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DShP_t_IsConstraintValid(const DShP_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSHP_T;

	return ret;
}

flag DShP_IsConstraintValid(const DShP* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = PB_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = DShP_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DShP_t_Initialize(DShP_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DShP_Initialize(DShP* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	PB_Initialize((&(pVal->b)));
	/*set c */
	PB_Initialize((&(pVal->c)));
	/*set t */
	DShP_t_Initialize((&(pVal->t)));
}

flag DShP_ACN_Encode(const DShP* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	flag DShP_h_f;
	flag DShP_h_f_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DShP_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        {
	            flag DShP_h_f00;
	            flag DShP_h_f00_is_initialized=FALSE;
	            flag DShP_h_f01;
	            flag DShP_h_f01_is_initialized=FALSE;

	            DShP_h_f00_is_initialized = TRUE;
	            DShP_h_f00 = (pVal->c.exist.o == 1);
	            DShP_h_f01_is_initialized = TRUE;
	            DShP_h_f01 = (pVal->b.exist.o == 1);

	            if (ret) {

	                *pErrCode = ERR_ACN_ENCODE_UPDATE_DSHP_H_F;
	                if (DShP_h_f00_is_initialized) { /*COVERAGE_IGNORE*/
	                    DShP_h_f = DShP_h_f00; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else if (DShP_h_f01_is_initialized) { /*COVERAGE_IGNORE*/
	                    DShP_h_f = DShP_h_f01; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else {
	                    ret = FALSE; /*COVERAGE_IGNORE*/
	                }
	                if (ret) {
	                    ret = (((DShP_h_f00_is_initialized && DShP_h_f == DShP_h_f00) || !DShP_h_f00_is_initialized) && ((DShP_h_f01_is_initialized && DShP_h_f == DShP_h_f01) || !DShP_h_f01_is_initialized));
	                    DShP_h_f_is_initialized = TRUE;
	                }
	            }
	        }
	        if (ret) {
	            /*Encode DShP_h_f */
	            if (DShP_h_f_is_initialized) {
	                ret = TRUE;
	                BitStream_AppendBit(pBitStrm,DShP_h_f);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DSHP_H_F_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        /*Encode x */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.x, 0, 7);
	        if (ret) {
	            /*Encode o */
	            if (pVal->b.exist.o) {
	            	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->b.o);
	            }
	            if (ret) {
	                /*Encode z */
	                BitStream_AppendBit(pBitStrm,pVal->b.z);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode c */
	            /*Encode x */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->c.x, 0, 7);
	            if (ret) {
	                /*Encode o */
	                if (pVal->c.exist.o) {
	                	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->c.o);
	                }
	                if (ret) {
	                    /*Encode z */
	                    BitStream_AppendBit(pBitStrm,pVal->c.z);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DShP_ACN_Decode(DShP* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag DShP_h_f;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_H_V;
	if (ret) {
	    /*Decode DShP_h_f */
	    ret = BitStream_ReadBit(pBitStrm, (&(DShP_h_f)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_H_F;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    /*Decode x */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.x)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_B_X;
	    if (ret) {
	        pVal->b.exist.o = DShP_h_f ? 1 : 0;
	        /*Decode o */
	        if (pVal->b.exist.o) {
	        	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->b.o)));
	        	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_B_O;
	        }
	        if (ret) {
	            /*Decode z */
	            ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.z)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_B_Z;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Decode c */
	        /*Decode x */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->c.x)), 0, 7);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_C_X;
	        if (ret) {
	            pVal->c.exist.o = DShP_h_f ? 1 : 0;
	            /*Decode o */
	            if (pVal->c.exist.o) {
	            	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->c.o)));
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_C_O;
	            }
	            if (ret) {
	                /*Decode z */
	                ret = BitStream_ReadBit(pBitStrm, (&(pVal->c.z)));
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_C_Z;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHP_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DShP_IsConstraintValid(pVal, pErrCode);
}


flag PCI_w3_Equal(const PCI_w3* pVal1, const PCI_w3* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCI_Equal(const PCI* pVal1, const PCI* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case w1_PRESENT:
    		ret = (pVal1->u.w1 == pVal2->u.w1);
    		break;
    	case w2_PRESENT:
    		ret = (pVal1->u.w2 == pVal2->u.w2);
    		break;
    	case w3_PRESENT:
    		ret = PCI_w3_Equal((&(pVal1->u.w3)), (&(pVal2->u.w3)));
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCI_w3_IsConstraintValid(const PCI_w3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 9);
    *pErrCode = ret ? 0 :  ERR_PCI_W3;

	return ret;
}

flag PCI_IsConstraintValid(const PCI* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case w1_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.w1)), pErrCode);
            break;          
        case w2_PRESENT : /*COVERAGE_IGNORE*/
            ret = TRUE;
            *pErrCode = 0;
            break;          /*COVERAGE_IGNORE*/
        case w3_PRESENT : 
            ret = PCI_w3_IsConstraintValid((&(pVal->u.w3)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCI;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCI_w3_Initialize(PCI_w3* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 9);
	pVal->nCount = 0;

}
void PCI_Initialize(PCI* pVal)
{
	(void)pVal;


	pVal->kind = w1_PRESENT;
	pVal->u.w1 = 0UL;
}


flag DChI_t_Equal(const DChI_t* pVal1, const DChI_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChI_Equal(const DChI* pVal1, const DChI* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCI_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChI_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChI_t_IsConstraintValid(const DChI_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHI_T;

	return ret;
}

flag DChI_IsConstraintValid(const DChI* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCI_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChI_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChI_t_Initialize(DChI_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChI_Initialize(DChI* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCI_Initialize((&(pVal->b)));
	/*set t */
	DChI_t_Initialize((&(pVal->t)));
}

flag DChI_ACN_Encode(const DChI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DChI_h_k;
	flag DChI_h_k_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChI_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        switch (pVal->b.kind) {
	            case w1_PRESENT:
	            		DChI_h_k_is_initialized = TRUE;
	            		DChI_h_k = 10;
	                break;
	            case w2_PRESENT:
	            		DChI_h_k_is_initialized = TRUE;
	            		DChI_h_k = 20;
	                break;
	            case w3_PRESENT:
	            		DChI_h_k_is_initialized = TRUE;
	            		DChI_h_k = 30;
	                break;
	            default:
	                ret = FALSE;                            /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Encode DChI_h_k */
	            if (DChI_h_k_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DChI_h_k);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DCHI_H_K_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            switch(pVal->b.kind)
	            {
	            case w1_PRESENT:
	            	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->b.u.w1);
	            	break;
	            case w2_PRESENT:
	            	BitStream_AppendBit(pBitStrm,pVal->b.u.w2);
	            	break;
	            case w3_PRESENT:
	            	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->b.u.w3.nCount, 0, 9);
	            	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.u.w3.arr, pVal->b.u.w3.nCount);
	            	break;
	            default:
	                *pErrCode = ERR_ACN_ENCODE_DCHI_B;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DChI_ACN_Decode(DChI* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DChI_h_k;
	asn1SccSint nCount;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_H_V;
	if (ret) {
	    /*Decode DChI_h_k */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DChI_h_k)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_H_K;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_M;
	    if (ret) {
	        /*Decode b */
	        *pErrCode = 0;
	        if ((DChI_h_k == 10)) {
	            pVal->b.kind = w1_PRESENT;
	            ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->b.u.w1)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_B_W1;
	        }
	        else if ((DChI_h_k == 20)) {
	            pVal->b.kind = w2_PRESENT;
	            ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.u.w2)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_B_W2;
	        }
	        else if ((DChI_h_k == 30)) {
	            pVal->b.kind = w3_PRESENT;
	            ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 9);
	            if (ret) {
	                pVal->b.u.w3.nCount = (long)nCount;
	                ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.u.w3.arr, pVal->b.u.w3.nCount);
	            }
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_B_W3;
	        }
	        else {
	            *pErrCode = ERR_ACN_DECODE_DCHI_B;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHI_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChI_IsConstraintValid(pVal, pErrCode);
}


flag DShC_t_Equal(const DShC_t* pVal1, const DShC_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DShC_Equal(const DShC* pVal1, const DShC* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = PCI_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = PCI_Equal((&(pVal1->c)), (&(pVal2->c)));

            if (ret) {
                ret = DShC_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DShC_t_IsConstraintValid(const DShC_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSHC_T;

	return ret;
}

flag DShC_IsConstraintValid(const DShC* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCI_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = PCI_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = DShC_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DShC_t_Initialize(DShC_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DShC_Initialize(DShC* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	PCI_Initialize((&(pVal->b)));
	/*set c */
	PCI_Initialize((&(pVal->c)));
	/*set t */
	DShC_t_Initialize((&(pVal->t)));
}

flag DShC_ACN_Encode(const DShC* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DShC_h_k;
	flag DShC_h_k_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DShC_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        {
	            asn1SccUint DShC_h_k00;
	            flag DShC_h_k00_is_initialized=FALSE;
	            asn1SccUint DShC_h_k01;
	            flag DShC_h_k01_is_initialized=FALSE;

	            switch (pVal->c.kind) {
	                case w1_PRESENT:
	                		DShC_h_k00_is_initialized = TRUE;
	                		DShC_h_k00 = 10;
	                    break;
	                case w2_PRESENT:
	                		DShC_h_k00_is_initialized = TRUE;
	                		DShC_h_k00 = 20;
	                    break;
	                case w3_PRESENT:
	                		DShC_h_k00_is_initialized = TRUE;
	                		DShC_h_k00 = 30;
	                    break;
	                default:
	                    ret = FALSE;                            /*COVERAGE_IGNORE*/
	            }
	            switch (pVal->b.kind) {
	                case w1_PRESENT:
	                		DShC_h_k01_is_initialized = TRUE;
	                		DShC_h_k01 = 10;
	                    break;
	                case w2_PRESENT:
	                		DShC_h_k01_is_initialized = TRUE;
	                		DShC_h_k01 = 20;
	                    break;
	                case w3_PRESENT:
	                		DShC_h_k01_is_initialized = TRUE;
	                		DShC_h_k01 = 30;
	                    break;
	                default:
	                    ret = FALSE;                            /*COVERAGE_IGNORE*/
	            }

	            if (ret) {

	                *pErrCode = ERR_ACN_ENCODE_UPDATE_DSHC_H_K;
	                if (DShC_h_k00_is_initialized) { /*COVERAGE_IGNORE*/
	                    DShC_h_k = DShC_h_k00; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else if (DShC_h_k01_is_initialized) { /*COVERAGE_IGNORE*/
	                    DShC_h_k = DShC_h_k01; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else {
	                    ret = FALSE; /*COVERAGE_IGNORE*/
	                }
	                if (ret) {
	                    ret = (((DShC_h_k00_is_initialized && DShC_h_k == DShC_h_k00) || !DShC_h_k00_is_initialized) && ((DShC_h_k01_is_initialized && DShC_h_k == DShC_h_k01) || !DShC_h_k01_is_initialized));
	                    DShC_h_k_is_initialized = TRUE;
	                }
	            }
	        }
	        if (ret) {
	            /*Encode DShC_h_k */
	            if (DShC_h_k_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DShC_h_k);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DSHC_H_K_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        switch(pVal->b.kind)
	        {
	        case w1_PRESENT:
	        	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->b.u.w1);
	        	break;
	        case w2_PRESENT:
	        	BitStream_AppendBit(pBitStrm,pVal->b.u.w2);
	        	break;
	        case w3_PRESENT:
	        	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->b.u.w3.nCount, 0, 9);
	        	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.u.w3.arr, pVal->b.u.w3.nCount);
	        	break;
	        default:
	            *pErrCode = ERR_ACN_ENCODE_DSHC_B;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Encode c */
	            switch(pVal->c.kind)
	            {
	            case w1_PRESENT:
	            	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->c.u.w1);
	            	break;
	            case w2_PRESENT:
	            	BitStream_AppendBit(pBitStrm,pVal->c.u.w2);
	            	break;
	            case w3_PRESENT:
	            	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->c.u.w3.nCount, 0, 9);
	            	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->c.u.w3.arr, pVal->c.u.w3.nCount);
	            	break;
	            default:
	                *pErrCode = ERR_ACN_ENCODE_DSHC_C;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DShC_ACN_Decode(DShC* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DShC_h_k;
	asn1SccSint nCount;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_H_V;
	if (ret) {
	    /*Decode DShC_h_k */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DShC_h_k)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_H_K;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    *pErrCode = 0;
	    if ((DShC_h_k == 10)) {
	        pVal->b.kind = w1_PRESENT;
	        ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->b.u.w1)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_B_W1;
	    }
	    else if ((DShC_h_k == 20)) {
	        pVal->b.kind = w2_PRESENT;
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.u.w2)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_B_W2;
	    }
	    else if ((DShC_h_k == 30)) {
	        pVal->b.kind = w3_PRESENT;
	        ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 9);
	        if (ret) {
	            pVal->b.u.w3.nCount = (long)nCount;
	            ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.u.w3.arr, pVal->b.u.w3.nCount);
	        }
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_B_W3;
	    }
	    else {
	        *pErrCode = ERR_ACN_DECODE_DSHC_B;         /*COVERAGE_IGNORE*/
	        ret = FALSE;                    /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	        /*Decode c */
	        *pErrCode = 0;
	        if ((DShC_h_k == 10)) {
	            pVal->c.kind = w1_PRESENT;
	            ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->c.u.w1)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_C_W1;
	        }
	        else if ((DShC_h_k == 20)) {
	            pVal->c.kind = w2_PRESENT;
	            ret = BitStream_ReadBit(pBitStrm, (&(pVal->c.u.w2)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_C_W2;
	        }
	        else if ((DShC_h_k == 30)) {
	            pVal->c.kind = w3_PRESENT;
	            ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 9);
	            if (ret) {
	                pVal->c.u.w3.nCount = (long)nCount;
	                ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->c.u.w3.arr, pVal->c.u.w3.nCount);
	            }
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_C_W3;
	        }
	        else {
	            *pErrCode = ERR_ACN_DECODE_DSHC_C;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHC_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DShC_IsConstraintValid(pVal, pErrCode);
}


flag P32_Equal(const P32* pVal1, const P32* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P32_IsConstraintValid(const P32* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 4294967295UL);
    *pErrCode = ret ? 0 :  ERR_P32;

	return ret;
}

void P32_Initialize(P32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P32_ACN_Encode(const P32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P32_ACN_Decode(P32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P32;

    return ret && P32_IsConstraintValid(pVal, pErrCode);
}


flag CP_b_Equal(const CP_b* pVal1, const CP_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag CP_Equal(const CP* pVal1, const CP* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->a == pVal2->a);

    if (ret) {
        ret = CP_b_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = (pVal1->c == pVal2->c);

        }

    }

	return ret;

}

flag CP_b_IsConstraintValid(const CP_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 30);
    *pErrCode = ret ? 0 :  ERR_CP_B;

	return ret;
}

flag CP_IsConstraintValid(const CP* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = P32_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        ret = CP_b_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = P8_IsConstraintValid((&(pVal->c)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CP_b_Initialize(CP_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 30);
	pVal->nCount = 0;

}
void CP_Initialize(CP* pVal)
{
	(void)pVal;


	/*set a */
	P32_Initialize((&(pVal->a)));
	/*set b */
	CP_b_Initialize((&(pVal->b)));
	/*set c */
	P8_Initialize((&(pVal->c)));
}


flag DCo_t_Equal(const DCo_t* pVal1, const DCo_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DCo_Equal(const DCo* pVal1, const DCo* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = CP_Equal((&(pVal1->p)), (&(pVal2->p)));

        if (ret) {
            ret = DCo_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DCo_t_IsConstraintValid(const DCo_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCO_T;

	return ret;
}

flag DCo_IsConstraintValid(const DCo* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = CP_IsConstraintValid((&(pVal->p)), pErrCode);
        if (ret) {
            ret = DCo_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DCo_t_Initialize(DCo_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DCo_Initialize(DCo* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set p */
	CP_Initialize((&(pVal->p)));
	/*set t */
	DCo_t_Initialize((&(pVal->t)));
}

flag DCo_ACN_Encode(const DCo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DCo_h_len;
	flag DCo_h_len_is_initialized=FALSE;
	asn1SccUint DCo_h_n;
	flag DCo_h_n_is_initialized=FALSE;
	byte arr[CP_REQUIRED_BYTES_FOR_ACN_ENCODING];
	BitStream bitStrm;
    *pErrCode = 0;
	ret = bCheckConstraints ? DCo_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        {
	            /*first encode containing type to a temporary bitstream. That's the only way to learn in advance the size of the encoding octet string*/
	            BitStream_Init(&bitStrm, arr, sizeof(arr));
	            BitStream* pBitStrm_save = pBitStrm;
	            pBitStrm = &bitStrm;
	            /*Encode a */
	            ret = P32_ACN_Encode((&(pVal->p.a)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode b */
	                ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->p.b.arr, pVal->p.b.nCount);
	                if (ret) {
	                    /*Encode c */
	                    ret = P8_ACN_Encode((&(pVal->p.c)), pBitStrm, pErrCode, FALSE);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            pBitStrm = pBitStrm_save;
	        }
	        if (ret) {
	        	DCo_h_len = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	        	DCo_h_len_is_initialized = TRUE;
	        }

	        if (ret) {
	            /*Encode DCo_h_len */
	            if (DCo_h_len_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, DCo_h_len);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DCO_H_LEN_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            DCo_h_n_is_initialized = TRUE;
	            DCo_h_n = pVal->p.b.nCount;
	            if (ret) {
	                /*Encode DCo_h_n */
	                if (DCo_h_n_is_initialized) {
	                    ret = TRUE;
	                    Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DCo_h_n);
	                } else {
	                    *pErrCode = ERR_ACN_ENCODE_DCO_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                    ret = FALSE;                    /*COVERAGE_IGNORE*/
	                }
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode e */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode p */
	        ret = BitStream_EncodeOctetString_no_length(pBitStrm, arr, (int)DCo_h_len);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DCo_ACN_Decode(DCo* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DCo_h_len;
	asn1SccUint DCo_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_V;
	if (ret) {
	    /*Decode DCo_h_len */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(DCo_h_len)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_LEN;
	    if (ret) {
	        /*Decode DCo_h_n */
	        ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DCo_h_n)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_N;
	        if (ret) {
	            /*Decode e */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_H_E;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode p */
	    /*open new scope to declare some variables*/
	    {
	    	
	    	byte arr[CP_REQUIRED_BYTES_FOR_ACN_ENCODING];
	        BitStream* pBitStrm_save = pBitStrm;
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));
	    	ret = (asn1SccUint)(DCo_h_len) <= CP_REQUIRED_BYTES_FOR_ACN_ENCODING;
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_2;
	    	if (ret) {
	    		/*decode to the temporary bitstream buffer */
	    		ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, (int)DCo_h_len);
	    		*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_2;
	    		if (ret) {
	                bitStrm.count = (long)DCo_h_len;
	                pBitStrm = &bitStrm;
	                /*Decode a */
	                ret = P32_ACN_Decode((&(pVal->p.a)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode b */
	                    ret = (DCo_h_n<=30);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_B;
	                    if (ret) {
	                        pVal->p.b.nCount = (int)DCo_h_n;
	                        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->p.b.arr, pVal->p.b.nCount);
	                    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_P_B;
	                    }
	                    if (ret) {
	                        /*Decode c */
	                        ret = P8_ACN_Decode((&(pVal->p.c)), pBitStrm, pErrCode);
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	    			//ret = CP_ACN_Decode((&(pVal->p)), &bitStrm, pErrCode);
	                pBitStrm = pBitStrm_save;
	    		}
	    	}
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCO_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DCo_IsConstraintValid(pVal, pErrCode);
}


flag OB_Equal(const OB* pVal1, const OB* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OB_IsConstraintValid(const OB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 25);
    *pErrCode = ret ? 0 :  ERR_OB;

	return ret;
}

void OB_Initialize(OB* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 25);
	pVal->nCount = 0;

}


flag DW16L_t_Equal(const DW16L_t* pVal1, const DW16L_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW16L_Equal(const DW16L* pVal1, const DW16L* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW16L_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW16L_t_IsConstraintValid(const DW16L_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW16L_T;

	return ret;
}

flag DW16L_IsConstraintValid(const DW16L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW16L_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW16L_t_Initialize(DW16L_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW16L_Initialize(DW16L* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set t */
	DW16L_t_Initialize((&(pVal->t)));
}

flag DW16L_ACN_Encode(const DW16L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW16L_h_n;
	flag DW16L_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW16L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW16L_h_n_is_initialized = TRUE;
	        DW16L_h_n = pVal->b.nCount;
	        if (ret) {
	            /*Encode DW16L_h_n */
	            if (DW16L_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, DW16L_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW16L_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW16L_ACN_Decode(DW16L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW16L_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_H_V;
	if (ret) {
	    /*Decode DW16L_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, (&(DW16L_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_M;
	    if (ret) {
	        /*Decode b */
	        ret = (DW16L_h_n<=25);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_B;
	        if (ret) {
	            pVal->b.nCount = (int)DW16L_h_n;
	            ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_B;
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW16L_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW16L_IsConstraintValid(pVal, pErrCode);
}


flag DW64L_t_Equal(const DW64L_t* pVal1, const DW64L_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW64L_Equal(const DW64L* pVal1, const DW64L* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW64L_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW64L_t_IsConstraintValid(const DW64L_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW64L_T;

	return ret;
}

flag DW64L_IsConstraintValid(const DW64L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW64L_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW64L_t_Initialize(DW64L_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW64L_Initialize(DW64L* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set t */
	DW64L_t_Initialize((&(pVal->t)));
}

flag DW64L_ACN_Encode(const DW64L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW64L_h_n;
	flag DW64L_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW64L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW64L_h_n_is_initialized = TRUE;
	        DW64L_h_n = pVal->b.nCount;
	        if (ret) {
	            /*Encode DW64L_h_n */
	            if (DW64L_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, DW64L_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW64L_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW64L_ACN_Decode(DW64L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW64L_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_H_V;
	if (ret) {
	    /*Decode DW64L_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, (&(DW64L_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_M;
	    if (ret) {
	        /*Decode b */
	        ret = (DW64L_h_n<=25);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_B;
	        if (ret) {
	            pVal->b.nCount = (int)DW64L_h_n;
	            ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_B;
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW64L_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW64L_IsConstraintValid(pVal, pErrCode);
}


flag DI32_t_Equal(const DI32_t* pVal1, const DI32_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI32_Equal(const DI32* pVal1, const DI32* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI32_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI32_t_IsConstraintValid(const DI32_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI32_T;

	return ret;
}

flag DI32_IsConstraintValid(const DI32* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI32_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI32_t_Initialize(DI32_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI32_Initialize(DI32* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set t */
	DI32_t_Initialize((&(pVal->t)));
}

flag DI32_ACN_Encode(const DI32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint DI32_h_n;
	flag DI32_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DI32_h_n_is_initialized = TRUE;
	        DI32_h_n = pVal->b.nCount;
	        if (ret) {
	            /*Encode DI32_h_n */
	            if (DI32_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, DI32_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DI32_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DI32_ACN_Decode(DI32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint DI32_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_H_V;
	if (ret) {
	    /*Decode DI32_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, (&(DI32_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_M;
	    if (ret) {
	        /*Decode b */
	        ret = (0<=DI32_h_n && DI32_h_n<=25);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_B;
	        if (ret) {
	            pVal->b.nCount = (int)DI32_h_n;
	            ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_B;
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI32_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI32_IsConstraintValid(pVal, pErrCode);
}


flag Lv3_z_Equal(const Lv3_z* pVal1, const Lv3_z* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Lv3_Equal(const Lv3* pVal1, const Lv3* pVal2)
{
	flag ret=TRUE;

    ret = Lv3_z_Equal((&(pVal1->z)), (&(pVal2->z)));

    if (ret) {
        ret = OB_Equal((&(pVal1->o)), (&(pVal2->o)));

    }

	return ret;

}

flag Lv3_z_IsConstraintValid(const Lv3_z* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_LV3_Z;

	return ret;
}

flag Lv3_IsConstraintValid(const Lv3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Lv3_z_IsConstraintValid((&(pVal->z)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->o)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Lv3_z_Initialize(Lv3_z* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Lv3_Initialize(Lv3* pVal)
{
	(void)pVal;


	/*set z */
	Lv3_z_Initialize((&(pVal->z)));
	/*set o */
	OB_Initialize((&(pVal->o)));
}


flag Lv2_Equal(const Lv2* pVal1, const Lv2* pVal2)
{
	flag ret=TRUE;

    ret = Lv3_Equal((&(pVal1->l3)), (&(pVal2->l3)));

    if (ret) {
        ret = PB_Equal((&(pVal1->p)), (&(pVal2->p)));

    }

	return ret;

}

flag Lv2_IsConstraintValid(const Lv2* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Lv3_IsConstraintValid((&(pVal->l3)), pErrCode);
    if (ret) {
        ret = PB_IsConstraintValid((&(pVal->p)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Lv2_Initialize(Lv2* pVal)
{
	(void)pVal;


	/*set l3 */
	Lv3_Initialize((&(pVal->l3)));
	/*set p */
	PB_Initialize((&(pVal->p)));
}


flag Lv1_y_Equal(const Lv1_y* pVal1, const Lv1_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Lv1_Equal(const Lv1* pVal1, const Lv1* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = Lv2_Equal((&(pVal1->l2)), (&(pVal2->l2)));

        if (ret) {
            ret = Lv1_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag Lv1_y_IsConstraintValid(const Lv1_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_LV1_Y;

	return ret;
}

flag Lv1_IsConstraintValid(const Lv1* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Lv2_IsConstraintValid((&(pVal->l2)), pErrCode);
    if (ret) {
        ret = Lv1_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Lv1_y_Initialize(Lv1_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Lv1_Initialize(Lv1* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set l2 */
	Lv2_Initialize((&(pVal->l2)));
	/*set y */
	Lv1_y_Initialize((&(pVal->y)));
}


flag DFwd_m_Equal(const DFwd_m* pVal1, const DFwd_m* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DFwd_Equal(const DFwd* pVal1, const DFwd* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = DFwd_m_Equal((&(pVal1->m)), (&(pVal2->m)));

        if (ret) {
            ret = Lv1_Equal((&(pVal1->l)), (&(pVal2->l)));

            if (ret) {
                ret = (pVal1->t == pVal2->t);

            }

        }

    }

	return ret;

}

flag DFwd_m_IsConstraintValid(const DFwd_m* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_DFWD_M;

	return ret;
}

flag DFwd_IsConstraintValid(const DFwd* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = DFwd_m_IsConstraintValid((&(pVal->m)), pErrCode);
        if (ret) {
            ret = Lv1_IsConstraintValid((&(pVal->l)), pErrCode);
            if (ret) {
                ret = P8_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DFwd_m_Initialize(DFwd_m* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DFwd_Initialize(DFwd* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	DFwd_m_Initialize((&(pVal->m)));
	/*set l */
	Lv1_Initialize((&(pVal->l)));
	/*set t */
	P8_Initialize((&(pVal->t)));
}

flag DFwd_ACN_Encode(const DFwd* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DFwd_h_n;
	flag DFwd_h_n_is_initialized=FALSE;
	flag DFwd_h_f;
	flag DFwd_h_f_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DFwd_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DFwd_h_n_is_initialized = TRUE;
	        DFwd_h_n = pVal->l.l2.l3.o.nCount;
	        if (ret) {
	            /*Encode DFwd_h_n */
	            if (DFwd_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DFwd_h_n, 7);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DFWD_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            DFwd_h_f_is_initialized = TRUE;
	            DFwd_h_f = (pVal->l.l2.p.exist.o == 1);
	            if (ret) {
	                /*Encode DFwd_h_f */
	                if (DFwd_h_f_is_initialized) {
	                    ret = TRUE;
	                    BitStream_AppendBit(pBitStrm,DFwd_h_f);
	                } else {
	                    *pErrCode = ERR_ACN_ENCODE_DFWD_H_F_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                    ret = FALSE;                    /*COVERAGE_IGNORE*/
	                }
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode e */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->m, 0, 7);
	        if (ret) {
	            /*Encode l */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->l.x);
	            if (ret) {
	                /*Encode l2 */
	                /*Encode l3 */
	                /*Encode z */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->l.l2.l3.z, 0, 3);
	                if (ret) {
	                    /*Encode o */
	                    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->l.l2.l3.o.arr, pVal->l.l2.l3.o.nCount);
	                }   /*COVERAGE_IGNORE*/
	                if (ret) {
	                    /*Encode p */
	                    /*Encode x */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->l.l2.p.x, 0, 7);
	                    if (ret) {
	                        /*Encode o */
	                        if (pVal->l.l2.p.exist.o) {
	                        	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->l.l2.p.o);
	                        }
	                        if (ret) {
	                            /*Encode z */
	                            BitStream_AppendBit(pBitStrm,pVal->l.l2.p.z);
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->l.y, 0, 7);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                ret = P8_ACN_Encode((&(pVal->t)), pBitStrm, pErrCode, FALSE);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DFwd_ACN_Decode(DFwd* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DFwd_h_n;
	flag DFwd_h_f;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_V;
	if (ret) {
	    /*Decode DFwd_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DFwd_h_n)), 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_N;
	    if (ret) {
	        /*Decode DFwd_h_f */
	        ret = BitStream_ReadBit(pBitStrm, (&(DFwd_h_f)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_F;
	        if (ret) {
	            /*Decode e */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_H_E;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->m)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_M;
	    if (ret) {
	        /*Decode l */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->l.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_X;
	        if (ret) {
	            /*Decode l2 */
	            /*Decode l3 */
	            /*Decode z */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->l.l2.l3.z)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_L3_Z;
	            if (ret) {
	                /*Decode o */
	                ret = (0<=DFwd_h_n && DFwd_h_n<=25);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_L3_O;
	                if (ret) {
	                    pVal->l.l2.l3.o.nCount = (int)DFwd_h_n;
	                    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->l.l2.l3.o.arr, pVal->l.l2.l3.o.nCount);
	                	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_L3_O;
	                }
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Decode p */
	                /*Decode x */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->l.l2.p.x)), 0, 7);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_P_X;
	                if (ret) {
	                    pVal->l.l2.p.exist.o = DFwd_h_f ? 1 : 0;
	                    /*Decode o */
	                    if (pVal->l.l2.p.exist.o) {
	                    	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->l.l2.p.o)));
	                    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_P_O;
	                    }
	                    if (ret) {
	                        /*Decode z */
	                        ret = BitStream_ReadBit(pBitStrm, (&(pVal->l.l2.p.z)));
	                        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_L2_P_Z;
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->l.y)), 0, 7);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DFWD_L_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = P8_ACN_Decode((&(pVal->t)), pBitStrm, pErrCode);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DFwd_IsConstraintValid(pVal, pErrCode);
}


flag SB_s_Equal(const SB_s pVal1, const SB_s pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag SB_y_Equal(const SB_y* pVal1, const SB_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag SB_Equal(const SB* pVal1, const SB* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = SB_s_Equal(pVal1->s, pVal2->s);

        if (ret) {
            ret = SB_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag SB_s_IsConstraintValid(const SB_s pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 12);
    *pErrCode = ret ? 0 :  ERR_SB_S;

	return ret;
}

flag SB_y_IsConstraintValid(const SB_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_SB_Y;

	return ret;
}

flag SB_IsConstraintValid(const SB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = SB_s_IsConstraintValid(pVal->s, pErrCode);
    if (ret) {
        ret = SB_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void SB_s_Initialize(SB_s pVal)
{
	(void)pVal;


	memset(pVal, ' ', 12);
	pVal[12] = 0;

}
void SB_y_Initialize(SB_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void SB_Initialize(SB* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set s */
	SB_s_Initialize(pVal->s);
	/*set y */
	SB_y_Initialize((&(pVal->y)));
}


flag DW8_t_Equal(const DW8_t* pVal1, const DW8_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW8_Equal(const DW8* pVal1, const DW8* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW8_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW8_t_IsConstraintValid(const DW8_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW8_T;

	return ret;
}

flag DW8_IsConstraintValid(const DW8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW8_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW8_t_Initialize(DW8_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW8_Initialize(DW8* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DW8_t_Initialize((&(pVal->t)));
}

flag DW8_ACN_Encode(const DW8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW8_h_n;
	flag DW8_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW8_h_n_is_initialized = TRUE;
	        DW8_h_n = strlen(pVal->b.s);
	        if (ret) {
	            /*Encode DW8_h_n */
	            if (DW8_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DW8_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW8_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->b.s);
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW8_ACN_Decode(DW8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW8_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_H_V;
	if (ret) {
	    /*Decode DW8_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DW8_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DW8_h_n, pVal->b.s);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_B_S;
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW8_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW8_IsConstraintValid(pVal, pErrCode);
}


flag DW32_t_Equal(const DW32_t* pVal1, const DW32_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW32_Equal(const DW32* pVal1, const DW32* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW32_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW32_t_IsConstraintValid(const DW32_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW32_T;

	return ret;
}

flag DW32_IsConstraintValid(const DW32* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW32_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW32_t_Initialize(DW32_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW32_Initialize(DW32* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DW32_t_Initialize((&(pVal->t)));
}

flag DW32_ACN_Encode(const DW32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW32_h_n;
	flag DW32_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW32_h_n_is_initialized = TRUE;
	        DW32_h_n = strlen(pVal->b.s);
	        if (ret) {
	            /*Encode DW32_h_n */
	            if (DW32_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, DW32_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW32_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->b.s);
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW32_ACN_Decode(DW32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW32_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_H_V;
	if (ret) {
	    /*Decode DW32_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, (&(DW32_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DW32_h_n, pVal->b.s);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_B_S;
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW32_IsConstraintValid(pVal, pErrCode);
}


flag DI8_t_Equal(const DI8_t* pVal1, const DI8_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI8_Equal(const DI8* pVal1, const DI8* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI8_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI8_t_IsConstraintValid(const DI8_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI8_T;

	return ret;
}

flag DI8_IsConstraintValid(const DI8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI8_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI8_t_Initialize(DI8_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI8_Initialize(DI8* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DI8_t_Initialize((&(pVal->t)));
}

flag DI8_ACN_Encode(const DI8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint DI8_h_n;
	flag DI8_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DI8_h_n_is_initialized = TRUE;
	        DI8_h_n = strlen(pVal->b.s);
	        if (ret) {
	            /*Encode DI8_h_n */
	            if (DI8_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_TwosComplement_ConstSize_8(pBitStrm, DI8_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DI8_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->b.s);
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DI8_ACN_Decode(DI8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint DI8_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_H_V;
	if (ret) {
	    /*Decode DI8_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, (&(DI8_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DI8_h_n, pVal->b.s);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_B_S;
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI8_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI8_IsConstraintValid(pVal, pErrCode);
}


flag DI64_t_Equal(const DI64_t* pVal1, const DI64_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI64_Equal(const DI64* pVal1, const DI64* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = SB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI64_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI64_t_IsConstraintValid(const DI64_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI64_T;

	return ret;
}

flag DI64_IsConstraintValid(const DI64* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = SB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI64_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI64_t_Initialize(DI64_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI64_Initialize(DI64* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	SB_Initialize((&(pVal->b)));
	/*set t */
	DI64_t_Initialize((&(pVal->t)));
}

flag DI64_ACN_Encode(const DI64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint DI64_h_n;
	flag DI64_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI64_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DI64_h_n_is_initialized = TRUE;
	        DI64_h_n = strlen(pVal->b.s);
	        if (ret) {
	            /*Encode DI64_h_n */
	            if (DI64_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, DI64_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DI64_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->b.s);
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DI64_ACN_Decode(DI64* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint DI64_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_H_V;
	if (ret) {
	    /*Decode DI64_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, (&(DI64_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DI64_h_n, pVal->b.s);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_B_S;
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI64_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI64_IsConstraintValid(pVal, pErrCode);
}


flag DSh_t_Equal(const DSh_t* pVal1, const DSh_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DSh_Equal(const DSh* pVal1, const DSh* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OB_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = (pVal1->m == pVal2->m);

            if (ret) {
                ret = SB_Equal((&(pVal1->c)), (&(pVal2->c)));

                if (ret) {
                    ret = DSh_t_Equal((&(pVal1->t)), (&(pVal2->t)));

                }

            }

        }

    }

	return ret;

}

flag DSh_t_IsConstraintValid(const DSh_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSH_T;

	return ret;
}

flag DSh_IsConstraintValid(const DSh* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = SB_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = DSh_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DSh_t_Initialize(DSh_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DSh_Initialize(DSh* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OB_Initialize((&(pVal->b)));
	/*set m */
	pVal->m = FALSE;
	/*set c */
	SB_Initialize((&(pVal->c)));
	/*set t */
	DSh_t_Initialize((&(pVal->t)));
}

flag DSh_ACN_Encode(const DSh* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DSh_h_n;
	flag DSh_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DSh_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        {
	            asn1SccUint DSh_h_n00;
	            flag DSh_h_n00_is_initialized=FALSE;
	            asn1SccUint DSh_h_n01;
	            flag DSh_h_n01_is_initialized=FALSE;

	            DSh_h_n00_is_initialized = TRUE;
	            DSh_h_n00 = strlen(pVal->c.s);
	            DSh_h_n01_is_initialized = TRUE;
	            DSh_h_n01 = pVal->b.nCount;

	            if (ret) {

	                *pErrCode = ERR_ACN_ENCODE_UPDATE_DSH_H_N;
	                if (DSh_h_n00_is_initialized) { /*COVERAGE_IGNORE*/
	                    DSh_h_n = DSh_h_n00; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else if (DSh_h_n01_is_initialized) { /*COVERAGE_IGNORE*/
	                    DSh_h_n = DSh_h_n01; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else {
	                    ret = FALSE; /*COVERAGE_IGNORE*/
	                }
	                if (ret) {
	                    ret = (((DSh_h_n00_is_initialized && DSh_h_n == DSh_h_n00) || !DSh_h_n00_is_initialized) && ((DSh_h_n01_is_initialized && DSh_h_n == DSh_h_n01) || !DSh_h_n01_is_initialized));
	                    DSh_h_n_is_initialized = TRUE;
	                }
	            }
	        }
	        if (ret) {
	            /*Encode DSh_h_n */
	            if (DSh_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DSh_h_n, 5);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DSH_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        if (ret) {
	            /*Encode m */
	            BitStream_AppendBit(pBitStrm,pVal->m);
	            if (ret) {
	                /*Encode c */
	                /*Encode x */
	                BitStream_AppendBit(pBitStrm,pVal->c.x);
	                if (ret) {
	                    /*Encode s */
	                    Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, pVal->c.s);
	                    if (ret) {
	                        /*Encode y */
	                        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->c.y, 0, 3);
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	                if (ret) {
	                    /*Encode t */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DSh_ACN_Decode(DSh* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DSh_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_H_V;
	if (ret) {
	    /*Decode DSh_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DSh_h_n)), 5);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    ret = (DSh_h_n<=25);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_B;
	    if (ret) {
	        pVal->b.nCount = (int)DSh_h_n;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_B;
	    }
	    if (ret) {
	        /*Decode m */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_M;
	        if (ret) {
	            /*Decode c */
	            /*Decode x */
	            ret = BitStream_ReadBit(pBitStrm, (&(pVal->c.x)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_C_X;
	            if (ret) {
	                /*Decode s */
	                ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 12, DSh_h_n, pVal->c.s);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_C_S;
	                if (ret) {
	                    /*Decode y */
	                    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->c.y)), 0, 3);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_C_Y;
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Decode t */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSH_T;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DSh_IsConstraintValid(pVal, pErrCode);
}


flag BB_s_Equal(const BB_s* pVal1, const BB_s* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BB_y_Equal(const BB_y* pVal1, const BB_y* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag BB_Equal(const BB* pVal1, const BB* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x == pVal2->x);

    if (ret) {
        ret = BB_s_Equal((&(pVal1->s)), (&(pVal2->s)));

        if (ret) {
            ret = BB_y_Equal((&(pVal1->y)), (&(pVal2->y)));

        }

    }

	return ret;

}

flag BB_s_IsConstraintValid(const BB_s* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 61);
    *pErrCode = ret ? 0 :  ERR_BB_S;

	return ret;
}

flag BB_y_IsConstraintValid(const BB_y* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_BB_Y;

	return ret;
}

flag BB_IsConstraintValid(const BB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = BB_s_IsConstraintValid((&(pVal->s)), pErrCode);
    if (ret) {
        ret = BB_y_IsConstraintValid((&(pVal->y)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void BB_s_Initialize(BB_s* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 64/8);

	pVal->nCount = 0;
}
void BB_y_Initialize(BB_y* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void BB_Initialize(BB* pVal)
{
	(void)pVal;


	/*set x */
	pVal->x = FALSE;
	/*set s */
	BB_s_Initialize((&(pVal->s)));
	/*set y */
	BB_y_Initialize((&(pVal->y)));
}


flag DW12_t_Equal(const DW12_t* pVal1, const DW12_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW12_Equal(const DW12* pVal1, const DW12* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = BB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW12_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW12_t_IsConstraintValid(const DW12_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW12_T;

	return ret;
}

flag DW12_IsConstraintValid(const DW12* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW12_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW12_t_Initialize(DW12_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW12_Initialize(DW12* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	BB_Initialize((&(pVal->b)));
	/*set t */
	DW12_t_Initialize((&(pVal->t)));
}

flag DW12_ACN_Encode(const DW12* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW12_h_n;
	flag DW12_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW12_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW12_h_n_is_initialized = TRUE;
	        DW12_h_n = pVal->b.s.nCount;
	        if (ret) {
	            /*Encode DW12_h_n */
	            if (DW12_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DW12_h_n, 12);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW12_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                BitStream_AppendBits(pBitStrm, pVal->b.s.arr, pVal->b.s.nCount);
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW12_ACN_Decode(DW12* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW12_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_H_V;
	if (ret) {
	    /*Decode DW12_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DW12_h_n)), 12);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = (DW12_h_n<=61);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_S;
	            if (ret) {
	                pVal->b.s.nCount = (int)DW12_h_n;
	                ret = BitStream_ReadBits(pBitStrm, pVal->b.s.arr, pVal->b.s.nCount);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_S;
	            }
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW12_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW12_IsConstraintValid(pVal, pErrCode);
}


flag DW32L_t_Equal(const DW32L_t* pVal1, const DW32L_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DW32L_Equal(const DW32L* pVal1, const DW32L* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = BB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DW32L_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DW32L_t_IsConstraintValid(const DW32L_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DW32L_T;

	return ret;
}

flag DW32L_IsConstraintValid(const DW32L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DW32L_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DW32L_t_Initialize(DW32L_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DW32L_Initialize(DW32L* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	BB_Initialize((&(pVal->b)));
	/*set t */
	DW32L_t_Initialize((&(pVal->t)));
}

flag DW32L_ACN_Encode(const DW32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DW32L_h_n;
	flag DW32L_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DW32L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DW32L_h_n_is_initialized = TRUE;
	        DW32L_h_n = pVal->b.s.nCount;
	        if (ret) {
	            /*Encode DW32L_h_n */
	            if (DW32L_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, DW32L_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DW32L_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                BitStream_AppendBits(pBitStrm, pVal->b.s.arr, pVal->b.s.nCount);
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DW32L_ACN_Decode(DW32L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DW32L_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_H_V;
	if (ret) {
	    /*Decode DW32L_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, (&(DW32L_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = (DW32L_h_n<=61);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_S;
	            if (ret) {
	                pVal->b.s.nCount = (int)DW32L_h_n;
	                ret = BitStream_ReadBits(pBitStrm, pVal->b.s.arr, pVal->b.s.nCount);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_S;
	            }
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DW32L_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DW32L_IsConstraintValid(pVal, pErrCode);
}


flag DI16_t_Equal(const DI16_t* pVal1, const DI16_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DI16_Equal(const DI16* pVal1, const DI16* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = BB_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DI16_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DI16_t_IsConstraintValid(const DI16_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DI16_T;

	return ret;
}

flag DI16_IsConstraintValid(const DI16* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DI16_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DI16_t_Initialize(DI16_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DI16_Initialize(DI16* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	BB_Initialize((&(pVal->b)));
	/*set t */
	DI16_t_Initialize((&(pVal->t)));
}

flag DI16_ACN_Encode(const DI16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint DI16_h_n;
	flag DI16_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DI16_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DI16_h_n_is_initialized = TRUE;
	        DI16_h_n = pVal->b.s.nCount;
	        if (ret) {
	            /*Encode DI16_h_n */
	            if (DI16_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, DI16_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DI16_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            /*Encode x */
	            BitStream_AppendBit(pBitStrm,pVal->b.x);
	            if (ret) {
	                /*Encode s */
	                BitStream_AppendBits(pBitStrm, pVal->b.s.arr, pVal->b.s.nCount);
	                if (ret) {
	                    /*Encode y */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DI16_ACN_Decode(DI16* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint DI16_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_H_V;
	if (ret) {
	    /*Decode DI16_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, (&(DI16_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_M;
	    if (ret) {
	        /*Decode b */
	        /*Decode x */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_X;
	        if (ret) {
	            /*Decode s */
	            ret = (0<=DI16_h_n && DI16_h_n<=61);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_S;
	            if (ret) {
	                pVal->b.s.nCount = (int)DI16_h_n;
	                ret = BitStream_ReadBits(pBitStrm, pVal->b.s.arr, pVal->b.s.nCount);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_S;
	            }
	            if (ret) {
	                /*Decode y */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_B_Y;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DI16_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DI16_IsConstraintValid(pVal, pErrCode);
}


flag DShQ_t_Equal(const DShQ_t* pVal1, const DShQ_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DShQ_Equal(const DShQ* pVal1, const DShQ* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = QB_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = (pVal1->m == pVal2->m);

            if (ret) {
                ret = BB_Equal((&(pVal1->c)), (&(pVal2->c)));

                if (ret) {
                    ret = OB_Equal((&(pVal1->d)), (&(pVal2->d)));

                    if (ret) {
                        ret = DShQ_t_Equal((&(pVal1->t)), (&(pVal2->t)));

                    }

                }

            }

        }

    }

	return ret;

}

flag DShQ_t_IsConstraintValid(const DShQ_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DSHQ_T;

	return ret;
}

flag DShQ_IsConstraintValid(const DShQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = QB_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = BB_IsConstraintValid((&(pVal->c)), pErrCode);
            if (ret) {
                ret = OB_IsConstraintValid((&(pVal->d)), pErrCode);
                if (ret) {
                    ret = DShQ_t_IsConstraintValid((&(pVal->t)), pErrCode);
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DShQ_t_Initialize(DShQ_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DShQ_Initialize(DShQ* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	QB_Initialize((&(pVal->b)));
	/*set m */
	pVal->m = FALSE;
	/*set c */
	BB_Initialize((&(pVal->c)));
	/*set d */
	OB_Initialize((&(pVal->d)));
	/*set t */
	DShQ_t_Initialize((&(pVal->t)));
}

flag DShQ_ACN_Encode(const DShQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DShQ_h_n;
	flag DShQ_h_n_is_initialized=FALSE;
	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DShQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        {
	            asn1SccUint DShQ_h_n00;
	            flag DShQ_h_n00_is_initialized=FALSE;
	            asn1SccUint DShQ_h_n01;
	            flag DShQ_h_n01_is_initialized=FALSE;
	            asn1SccUint DShQ_h_n02;
	            flag DShQ_h_n02_is_initialized=FALSE;

	            DShQ_h_n00_is_initialized = TRUE;
	            DShQ_h_n00 = pVal->d.nCount;
	            DShQ_h_n01_is_initialized = TRUE;
	            DShQ_h_n01 = pVal->c.s.nCount;
	            DShQ_h_n02_is_initialized = TRUE;
	            DShQ_h_n02 = pVal->b.s.nCount;

	            if (ret) {

	                *pErrCode = ERR_ACN_ENCODE_UPDATE_DSHQ_H_N;
	                if (DShQ_h_n00_is_initialized) { /*COVERAGE_IGNORE*/
	                    DShQ_h_n = DShQ_h_n00; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else if (DShQ_h_n01_is_initialized) { /*COVERAGE_IGNORE*/
	                    DShQ_h_n = DShQ_h_n01; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else if (DShQ_h_n02_is_initialized) { /*COVERAGE_IGNORE*/
	                    DShQ_h_n = DShQ_h_n02; /*COVERAGE_IGNORE*/
	                } /*COVERAGE_IGNORE*/ else {
	                    ret = FALSE; /*COVERAGE_IGNORE*/
	                }
	                if (ret) {
	                    ret = (((DShQ_h_n00_is_initialized && DShQ_h_n == DShQ_h_n00) || !DShQ_h_n00_is_initialized) && ((DShQ_h_n01_is_initialized && DShQ_h_n == DShQ_h_n01) || !DShQ_h_n01_is_initialized) && ((DShQ_h_n02_is_initialized && DShQ_h_n == DShQ_h_n02) || !DShQ_h_n02_is_initialized));
	                    DShQ_h_n_is_initialized = TRUE;
	                }
	            }
	        }
	        if (ret) {
	            /*Encode DShQ_h_n */
	            if (DShQ_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, DShQ_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DSHQ_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        /*Encode x */
	        BitStream_AppendBit(pBitStrm,pVal->b.x);
	        if (ret) {
	            /*Encode s */
	            for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	            {
	            	ret = P5_ACN_Encode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode, FALSE);
	            }
	            if (ret) {
	                /*Encode y */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->b.y, 0, 3);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode m */
	            BitStream_AppendBit(pBitStrm,pVal->m);
	            if (ret) {
	                /*Encode c */
	                /*Encode x */
	                BitStream_AppendBit(pBitStrm,pVal->c.x);
	                if (ret) {
	                    /*Encode s */
	                    BitStream_AppendBits(pBitStrm, pVal->c.s.arr, pVal->c.s.nCount);
	                    if (ret) {
	                        /*Encode y */
	                        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->c.y, 0, 3);
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	                if (ret) {
	                    /*Encode d */
	                    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->d.arr, pVal->d.nCount);
	                    if (ret) {
	                        /*Encode t */
	                        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DShQ_ACN_Decode(DShQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DShQ_h_n;
	int i1;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_H_V;
	if (ret) {
	    /*Decode DShQ_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, (&(DShQ_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    /*Decode x */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->b.x)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_B_X;
	    if (ret) {
	        /*Decode s */
	        ret = ((DShQ_h_n<=9));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_B_S;
	        if (ret) {
	            pVal->b.s.nCount = (int)DShQ_h_n;
	            for(i1=0; (i1 < (int)pVal->b.s.nCount) && ret; i1++)
	            {
	            	ret = P5_ACN_Decode((&(pVal->b.s.arr[i1])), pBitStrm, pErrCode);
	            }
	        }
	        if (ret) {
	            /*Decode y */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->b.y)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_B_Y;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Decode m */
	        ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_M;
	        if (ret) {
	            /*Decode c */
	            /*Decode x */
	            ret = BitStream_ReadBit(pBitStrm, (&(pVal->c.x)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_X;
	            if (ret) {
	                /*Decode s */
	                ret = (DShQ_h_n<=61);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_S;
	                if (ret) {
	                    pVal->c.s.nCount = (int)DShQ_h_n;
	                    ret = BitStream_ReadBits(pBitStrm, pVal->c.s.arr, pVal->c.s.nCount);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_S;
	                }
	                if (ret) {
	                    /*Decode y */
	                    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->c.y)), 0, 3);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_C_Y;
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Decode d */
	                ret = (DShQ_h_n<=25);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_D;
	                if (ret) {
	                    pVal->d.nCount = (int)DShQ_h_n;
	                    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->d.arr, pVal->d.nCount);
	                	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_D;
	                }
	                if (ret) {
	                    /*Decode t */
	                    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSHQ_T;
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DShQ_IsConstraintValid(pVal, pErrCode);
}


flag Len2_Equal(const Len2* pVal1, const Len2* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Len2_IsConstraintValid(const Len2* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((2UL <= (*(pVal))) && ((*(pVal)) <= 20UL));
    *pErrCode = ret ? 0 :  ERR_LEN2;

	return ret;
}

void Len2_Initialize(Len2* pVal)
{
	(void)pVal;


	(*(pVal)) = 2UL;
}

flag Len2_ACN_Encode(const Len2* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Len2_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (*(pVal)), 2, 20);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Len2_ACN_Decode(Len2* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, pVal, 2, 20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_LEN2;

    return ret && Len2_IsConstraintValid(pVal, pErrCode);
}


flag OBM_Equal(const OBM* pVal1, const OBM* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OBM_IsConstraintValid(const OBM* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((2 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 20));
    *pErrCode = ret ? 0 :  ERR_OBM;

	return ret;
}

void OBM_Initialize(OBM* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 20);
	pVal->nCount = 2;

}


flag DUp_t_Equal(const DUp_t* pVal1, const DUp_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DUp_Equal(const DUp* pVal1, const DUp* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OBM_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DUp_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DUp_t_IsConstraintValid(const DUp_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DUP_T;

	return ret;
}

flag DUp_IsConstraintValid(const DUp* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OBM_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DUp_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DUp_t_Initialize(DUp_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DUp_Initialize(DUp* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OBM_Initialize((&(pVal->b)));
	/*set t */
	DUp_t_Initialize((&(pVal->t)));
}

flag DUp_ACN_Encode(const DUp* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DUp_h_n;
	flag DUp_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DUp_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DUp_h_n_is_initialized = TRUE;
	        DUp_h_n = pVal->b.nCount;
	        if (ret) {
	            /*Encode DUp_h_n */
	            if (DUp_h_n_is_initialized) {
	                ret = TRUE;
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, DUp_h_n, 2, 20);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DUP_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DUp_ACN_Decode(DUp* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DUp_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_H_V;
	if (ret) {
	    /*Decode DUp_h_n */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(DUp_h_n)), 2, 20);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    ret = (2<=DUp_h_n && DUp_h_n<=20);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_B;
	    if (ret) {
	        pVal->b.nCount = (int)DUp_h_n;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_B;
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DUP_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DUp_IsConstraintValid(pVal, pErrCode);
}


flag Len3_Equal(const Len3* pVal1, const Len3* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Len3_IsConstraintValid(const Len3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 20UL);
    *pErrCode = ret ? 0 :  ERR_LEN3;

	return ret;
}

void Len3_Initialize(Len3* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag Len3_ACN_Encode(const Len3* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Len3_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (*(pVal)), 0, 20);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Len3_ACN_Decode(Len3* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, pVal, 0, 20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_LEN3;

    return ret && Len3_IsConstraintValid(pVal, pErrCode);
}


flag OB3_Equal(const OB3* pVal1, const OB3* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OB3_IsConstraintValid(const OB3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 20);
    *pErrCode = ret ? 0 :  ERR_OB3;

	return ret;
}

void OB3_Initialize(OB3* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 20);
	pVal->nCount = 0;

}


flag DLn_t_Equal(const DLn_t* pVal1, const DLn_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DLn_Equal(const DLn* pVal1, const DLn* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OB3_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DLn_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DLn_t_IsConstraintValid(const DLn_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DLN_T;

	return ret;
}

flag DLn_IsConstraintValid(const DLn* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB3_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DLn_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DLn_t_Initialize(DLn_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DLn_Initialize(DLn* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OB3_Initialize((&(pVal->b)));
	/*set t */
	DLn_t_Initialize((&(pVal->t)));
}

flag DLn_ACN_Encode(const DLn* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DLn_h_n;
	flag DLn_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DLn_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DLn_h_n_is_initialized = TRUE;
	        DLn_h_n = pVal->b.nCount;
	        if (ret) {
	            /*Encode DLn_h_n */
	            if (DLn_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DLn_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DLN_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DLn_ACN_Decode(DLn* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DLn_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_H_V;
	if (ret) {
	    /*Decode DLn_h_n */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DLn_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    ret = (DLn_h_n<=20);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_B;
	    if (ret) {
	        pVal->b.nCount = (int)DLn_h_n;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_B;
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLN_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DLn_IsConstraintValid(pVal, pErrCode);
}


flag Len4_Equal(const Len4* pVal1, const Len4* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Len4_IsConstraintValid(const Len4* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-20LL <= (*(pVal))) && ((*(pVal)) <= 20LL));
    *pErrCode = ret ? 0 :  ERR_LEN4;

	return ret;
}

void Len4_Initialize(Len4* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag Len4_ACN_Encode(const Len4* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Len4_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, (*(pVal)), -20, 20);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Len4_ACN_Decode(Len4* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, pVal, -20, 20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_LEN4;

    return ret && Len4_IsConstraintValid(pVal, pErrCode);
}


flag OB4_Equal(const OB4* pVal1, const OB4* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OB4_IsConstraintValid(const OB4* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 20);
    *pErrCode = ret ? 0 :  ERR_OB4;

	return ret;
}

void OB4_Initialize(OB4* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 20);
	pVal->nCount = 0;

}


flag DLs_t_Equal(const DLs_t* pVal1, const DLs_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DLs_Equal(const DLs* pVal1, const DLs* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = OB4_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DLs_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DLs_t_IsConstraintValid(const DLs_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DLS_T;

	return ret;
}

flag DLs_IsConstraintValid(const DLs* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = OB4_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DLs_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DLs_t_Initialize(DLs_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DLs_Initialize(DLs* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	OB4_Initialize((&(pVal->b)));
	/*set t */
	DLs_t_Initialize((&(pVal->t)));
}

flag DLs_ACN_Encode(const DLs* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint DLs_h_n;
	flag DLs_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DLs_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DLs_h_n_is_initialized = TRUE;
	        DLs_h_n = pVal->b.nCount;
	        if (ret) {
	            /*Encode DLs_h_n */
	            if (DLs_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_TwosComplement_ConstSize_8(pBitStrm, DLs_h_n);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DLS_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DLs_ACN_Decode(DLs* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint DLs_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_H_V;
	if (ret) {
	    /*Decode DLs_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, (&(DLs_h_n)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    ret = (0<=DLs_h_n && DLs_h_n<=20);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_B;
	    if (ret) {
	        pVal->b.nCount = (int)DLs_h_n;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.arr, pVal->b.nCount);
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_B;
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLS_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DLs_IsConstraintValid(pVal, pErrCode);
}


flag BB3_Equal(const BB3* pVal1, const BB3* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BB3_IsConstraintValid(const BB3* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 20);
    *pErrCode = ret ? 0 :  ERR_BB3;

	return ret;
}

void BB3_Initialize(BB3* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 24/8);

	pVal->nCount = 0;
}


flag DLb_t_Equal(const DLb_t* pVal1, const DLb_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DLb_Equal(const DLb* pVal1, const DLb* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = BB3_Equal((&(pVal1->b)), (&(pVal2->b)));

        if (ret) {
            ret = DLb_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag DLb_t_IsConstraintValid(const DLb_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DLB_T;

	return ret;
}

flag DLb_IsConstraintValid(const DLb* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = BB3_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DLb_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DLb_t_Initialize(DLb_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DLb_Initialize(DLb* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set b */
	BB3_Initialize((&(pVal->b)));
	/*set t */
	DLb_t_Initialize((&(pVal->t)));
}

flag DLb_ACN_Encode(const DLb* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint DLb_h_n;
	flag DLb_h_n_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DLb_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        DLb_h_n_is_initialized = TRUE;
	        DLb_h_n = pVal->b.nCount;
	        if (ret) {
	            /*Encode DLb_h_n */
	            if (DLb_h_n_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, DLb_h_n, 7);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DLB_H_N_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode b */
	        BitStream_AppendBits(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DLb_ACN_Decode(DLb* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint DLb_h_n;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_H_V;
	if (ret) {
	    /*Decode DLb_h_n */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(DLb_h_n)), 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_H_N;
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode b */
	    ret = (0<=DLb_h_n && DLb_h_n<=20);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_B;
	    if (ret) {
	        pVal->b.nCount = (int)DLb_h_n;
	        ret = BitStream_ReadBits(pBitStrm, pVal->b.arr, pVal->b.nCount);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_B;
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DLB_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DLb_IsConstraintValid(pVal, pErrCode);
}


flag TgE_Equal(const TgE* pVal1, const TgE* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag TgE_IsConstraintValid(const TgE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == TgE_t_a)) || (((*(pVal)) == TgE_t_b)))) || (((*(pVal)) == TgE_t_c)));
    *pErrCode = ret ? 0 :  ERR_TGE;

	return ret;
}

void TgE_Initialize(TgE* pVal)
{
	(void)pVal;


	(*(pVal)) = TgE_t_a;
}

flag TgE_ACN_Encode(const TgE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? TgE_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case TgE_t_a:
	            intVal_pVal = 5UL;
	            break;
	        case TgE_t_b:
	            intVal_pVal = 6UL;
	            break;
	        case TgE_t_c:
	            intVal_pVal = 200UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_TGE;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, intVal_pVal);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag TgE_ACN_Decode(TgE* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(intVal_pVal)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_TGE;
	if (ret) {
	    switch (intVal_pVal) {
	        case 5:
	            (*(pVal)) = TgE_t_a;
	            break;
	        case 6:
	            (*(pVal)) = TgE_t_b;
	            break;
	        case 200:
	            (*(pVal)) = TgE_t_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_TGE;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && TgE_IsConstraintValid(pVal, pErrCode);
}


flag PCE_t_b_Equal(const PCE_t_b* pVal1, const PCE_t_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCE_Equal(const PCE* pVal1, const PCE* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case PCE_t_a_PRESENT:
    		ret = (pVal1->u.t_a == pVal2->u.t_a);
    		break;
    	case PCE_t_b_PRESENT:
    		ret = PCE_t_b_Equal((&(pVal1->u.t_b)), (&(pVal2->u.t_b)));
    		break;
    	case PCE_t_c_PRESENT:
    		ret = (pVal1->u.t_c == pVal2->u.t_c);
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCE_t_b_IsConstraintValid(const PCE_t_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_PCE_T_B;

	return ret;
}

flag PCE_IsConstraintValid(const PCE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case PCE_t_a_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.t_a)), pErrCode);
            break;          
        case PCE_t_b_PRESENT : 
            ret = PCE_t_b_IsConstraintValid((&(pVal->u.t_b)), pErrCode);
            break;          
        case PCE_t_c_PRESENT : 
            ret = P32_IsConstraintValid((&(pVal->u.t_c)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCE;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCE_t_b_Initialize(PCE_t_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 6);
	pVal->nCount = 0;

}
void PCE_Initialize(PCE* pVal)
{
	(void)pVal;


	pVal->kind = PCE_t_a_PRESENT;
	pVal->u.t_a = 0UL;
}


flag DChE_t_Equal(const DChE_t* pVal1, const DChE_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChE_Equal(const DChE* pVal1, const DChE* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCE_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChE_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChE_t_IsConstraintValid(const DChE_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHE_T;

	return ret;
}

flag DChE_IsConstraintValid(const DChE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCE_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChE_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChE_t_Initialize(DChE_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChE_Initialize(DChE* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCE_Initialize((&(pVal->b)));
	/*set t */
	DChE_t_Initialize((&(pVal->t)));
}

flag DChE_ACN_Encode(const DChE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	TgE DChE_h_k;
	flag DChE_h_k_is_initialized=FALSE;
	asn1SccUint intVal_DChE_h_k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChE_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        switch (pVal->b.kind) {
	            case PCE_t_a_PRESENT:
	                DChE_h_k_is_initialized = TRUE;
	            	DChE_h_k = TgE_t_a;
	                break;
	            case PCE_t_b_PRESENT:
	                DChE_h_k_is_initialized = TRUE;
	            	DChE_h_k = TgE_t_b;
	                break;
	            case PCE_t_c_PRESENT:
	                DChE_h_k_is_initialized = TRUE;
	            	DChE_h_k = TgE_t_c;
	                break;
	            default:
	                ret = FALSE;                            /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Encode DChE_h_k */
	            if (DChE_h_k_is_initialized) {
	                ret = TRUE;
	                switch(DChE_h_k) {
	                    case TgE_t_a:
	                        intVal_DChE_h_k = 5UL;
	                        break;
	                    case TgE_t_b:
	                        intVal_DChE_h_k = 6UL;
	                        break;
	                    case TgE_t_c:
	                        intVal_DChE_h_k = 200UL;
	                        break;
	                    default:                                    /*COVERAGE_IGNORE*/
	                        ret = FALSE;                            /*COVERAGE_IGNORE*/
	                        *pErrCode = ERR_ACN_ENCODE_DCHE_H_K;                 /*COVERAGE_IGNORE*/
	                }
	                if (ret) {
	                	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, intVal_DChE_h_k);
	                }
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DCHE_H_K_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            switch(pVal->b.kind)
	            {
	                case PCE_t_a_PRESENT:
	                	ret = P8_ACN_Encode((&(pVal->b.u.t_a)), pBitStrm, pErrCode, FALSE);
	                	break;
	                case PCE_t_b_PRESENT:
	                	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->b.u.t_b.nCount, 0, 6);
	                	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.u.t_b.arr, pVal->b.u.t_b.nCount);
	                	break;
	                case PCE_t_c_PRESENT:
	                	ret = P32_ACN_Encode((&(pVal->b.u.t_c)), pBitStrm, pErrCode, FALSE);
	                	break;
	            default:
	                *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DChE_ACN_Decode(DChE* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	TgE DChE_h_k;
	asn1SccUint intVal_DChE_h_k;
	asn1SccSint nCount;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_H_V;
	if (ret) {
	    /*Decode DChE_h_k */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(intVal_DChE_h_k)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_H_K;
	    if (ret) {
	        switch (intVal_DChE_h_k) {
	            case 5:
	                DChE_h_k = TgE_t_a;
	                break;
	            case 6:
	                DChE_h_k = TgE_t_b;
	                break;
	            case 200:
	                DChE_h_k = TgE_t_c;
	                break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_DECODE_DCHE_H_K;                 /*COVERAGE_IGNORE*/
	        }
	    } /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_M;
	    if (ret) {
	        /*Decode b */
	        switch(DChE_h_k)
	        {
	            case TgE_t_a:
	            	pVal->b.kind = PCE_t_a_PRESENT;
	            	ret = P8_ACN_Decode((&(pVal->b.u.t_a)), pBitStrm, pErrCode);
	            	break;
	            case TgE_t_b:
	            	pVal->b.kind = PCE_t_b_PRESENT;
	            	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 6);
	            	if (ret) {
	            	    pVal->b.u.t_b.nCount = (long)nCount;
	            	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.u.t_b.arr, pVal->b.u.t_b.nCount);
	            	}
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_B_T_B;
	            	break;
	            case TgE_t_c:
	            	pVal->b.kind = PCE_t_c_PRESENT;
	            	ret = P32_ACN_Decode((&(pVal->b.u.t_c)), pBitStrm, pErrCode);
	            	break;
	        default:
	            *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHE_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChE_IsConstraintValid(pVal, pErrCode);
}


flag TgU_Equal(const TgU* pVal1, const TgU* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag TgU_IsConstraintValid(const TgU* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == TgU_t_a)) || (((*(pVal)) == TgU_t_b)))) || (((*(pVal)) == TgU_t_c)));
    *pErrCode = ret ? 0 :  ERR_TGU;

	return ret;
}

void TgU_Initialize(TgU* pVal)
{
	(void)pVal;


	(*(pVal)) = TgU_t_a;
}

flag TgU_ACN_Encode(const TgU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? TgU_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case TgU_t_a:
	            intVal_pVal = 0UL;
	            break;
	        case TgU_t_b:
	            intVal_pVal = 1UL;
	            break;
	        case TgU_t_c:
	            intVal_pVal = 2UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_TGU;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, intVal_pVal, 0, 2);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag TgU_ACN_Decode(TgU* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(intVal_pVal)), 0, 2);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_TGU;
	if (ret) {
	    switch (intVal_pVal) {
	        case 0:
	            (*(pVal)) = TgU_t_a;
	            break;
	        case 1:
	            (*(pVal)) = TgU_t_b;
	            break;
	        case 2:
	            (*(pVal)) = TgU_t_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_TGU;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && TgU_IsConstraintValid(pVal, pErrCode);
}


flag PCU_t_b_Equal(const PCU_t_b* pVal1, const PCU_t_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCU_Equal(const PCU* pVal1, const PCU* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case PCU_t_a_PRESENT:
    		ret = (pVal1->u.t_a == pVal2->u.t_a);
    		break;
    	case PCU_t_b_PRESENT:
    		ret = PCU_t_b_Equal((&(pVal1->u.t_b)), (&(pVal2->u.t_b)));
    		break;
    	case PCU_t_c_PRESENT:
    		ret = (pVal1->u.t_c == pVal2->u.t_c);
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCU_t_b_IsConstraintValid(const PCU_t_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_PCU_T_B;

	return ret;
}

flag PCU_IsConstraintValid(const PCU* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case PCU_t_a_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.t_a)), pErrCode);
            break;          
        case PCU_t_b_PRESENT : 
            ret = PCU_t_b_IsConstraintValid((&(pVal->u.t_b)), pErrCode);
            break;          
        case PCU_t_c_PRESENT : 
            ret = P32_IsConstraintValid((&(pVal->u.t_c)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCU;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCU_t_b_Initialize(PCU_t_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 6);
	pVal->nCount = 0;

}
void PCU_Initialize(PCU* pVal)
{
	(void)pVal;


	pVal->kind = PCU_t_a_PRESENT;
	pVal->u.t_a = 0UL;
}


flag DChU_t_Equal(const DChU_t* pVal1, const DChU_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChU_Equal(const DChU* pVal1, const DChU* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCU_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChU_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChU_t_IsConstraintValid(const DChU_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHU_T;

	return ret;
}

flag DChU_IsConstraintValid(const DChU* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCU_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChU_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChU_t_Initialize(DChU_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChU_Initialize(DChU* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCU_Initialize((&(pVal->b)));
	/*set t */
	DChU_t_Initialize((&(pVal->t)));
}

flag DChU_ACN_Encode(const DChU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	TgU DChU_h_k;
	flag DChU_h_k_is_initialized=FALSE;
	asn1SccUint intVal_DChU_h_k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChU_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        switch (pVal->b.kind) {
	            case PCU_t_a_PRESENT:
	                DChU_h_k_is_initialized = TRUE;
	            	DChU_h_k = TgU_t_a;
	                break;
	            case PCU_t_b_PRESENT:
	                DChU_h_k_is_initialized = TRUE;
	            	DChU_h_k = TgU_t_b;
	                break;
	            case PCU_t_c_PRESENT:
	                DChU_h_k_is_initialized = TRUE;
	            	DChU_h_k = TgU_t_c;
	                break;
	            default:
	                ret = FALSE;                            /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Encode DChU_h_k */
	            if (DChU_h_k_is_initialized) {
	                ret = TRUE;
	                switch(DChU_h_k) {
	                    case TgU_t_a:
	                        intVal_DChU_h_k = 0UL;
	                        break;
	                    case TgU_t_b:
	                        intVal_DChU_h_k = 1UL;
	                        break;
	                    case TgU_t_c:
	                        intVal_DChU_h_k = 2UL;
	                        break;
	                    default:                                    /*COVERAGE_IGNORE*/
	                        ret = FALSE;                            /*COVERAGE_IGNORE*/
	                        *pErrCode = ERR_ACN_ENCODE_DCHU_H_K;                 /*COVERAGE_IGNORE*/
	                }
	                if (ret) {
	                	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, intVal_DChU_h_k, 0, 2);
	                }
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DCHU_H_K_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            switch(pVal->b.kind)
	            {
	                case PCU_t_a_PRESENT:
	                	ret = P8_ACN_Encode((&(pVal->b.u.t_a)), pBitStrm, pErrCode, FALSE);
	                	break;
	                case PCU_t_b_PRESENT:
	                	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->b.u.t_b.nCount, 0, 6);
	                	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.u.t_b.arr, pVal->b.u.t_b.nCount);
	                	break;
	                case PCU_t_c_PRESENT:
	                	ret = P32_ACN_Encode((&(pVal->b.u.t_c)), pBitStrm, pErrCode, FALSE);
	                	break;
	            default:
	                *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DChU_ACN_Decode(DChU* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	TgU DChU_h_k;
	asn1SccUint intVal_DChU_h_k;
	asn1SccSint nCount;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_H_V;
	if (ret) {
	    /*Decode DChU_h_k */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(intVal_DChU_h_k)), 0, 2);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_H_K;
	    if (ret) {
	        switch (intVal_DChU_h_k) {
	            case 0:
	                DChU_h_k = TgU_t_a;
	                break;
	            case 1:
	                DChU_h_k = TgU_t_b;
	                break;
	            case 2:
	                DChU_h_k = TgU_t_c;
	                break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_DECODE_DCHU_H_K;                 /*COVERAGE_IGNORE*/
	        }
	    } /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_M;
	    if (ret) {
	        /*Decode b */
	        switch(DChU_h_k)
	        {
	            case TgU_t_a:
	            	pVal->b.kind = PCU_t_a_PRESENT;
	            	ret = P8_ACN_Decode((&(pVal->b.u.t_a)), pBitStrm, pErrCode);
	            	break;
	            case TgU_t_b:
	            	pVal->b.kind = PCU_t_b_PRESENT;
	            	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 6);
	            	if (ret) {
	            	    pVal->b.u.t_b.nCount = (long)nCount;
	            	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.u.t_b.arr, pVal->b.u.t_b.nCount);
	            	}
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_B_T_B;
	            	break;
	            case TgU_t_c:
	            	pVal->b.kind = PCU_t_c_PRESENT;
	            	ret = P32_ACN_Decode((&(pVal->b.u.t_c)), pBitStrm, pErrCode);
	            	break;
	        default:
	            *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHU_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChU_IsConstraintValid(pVal, pErrCode);
}


flag TgN_Equal(const TgN* pVal1, const TgN* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag TgN_IsConstraintValid(const TgN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == TgN_t_a)) || (((*(pVal)) == TgN_t_b)))) || (((*(pVal)) == TgN_t_c)));
    *pErrCode = ret ? 0 :  ERR_TGN;

	return ret;
}

void TgN_Initialize(TgN* pVal)
{
	(void)pVal;


	(*(pVal)) = TgN_t_a;
}

flag TgN_ACN_Encode(const TgN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? TgN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case TgN_t_a:
	            intVal_pVal = -3LL;
	            break;
	        case TgN_t_b:
	            intVal_pVal = 0LL;
	            break;
	        case TgN_t_c:
	            intVal_pVal = 900LL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_TGN;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, intVal_pVal, 12);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag TgN_ACN_Decode(TgN* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint intVal_pVal;

	ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(intVal_pVal)), 12);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_TGN;
	if (ret) {
	    switch (intVal_pVal) {
	        case -3:
	            (*(pVal)) = TgN_t_a;
	            break;
	        case 0:
	            (*(pVal)) = TgN_t_b;
	            break;
	        case 900:
	            (*(pVal)) = TgN_t_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_TGN;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && TgN_IsConstraintValid(pVal, pErrCode);
}


flag PCN_t_b_Equal(const PCN_t_b* pVal1, const PCN_t_b* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag PCN_Equal(const PCN* pVal1, const PCN* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case PCN_t_a_PRESENT:
    		ret = (pVal1->u.t_a == pVal2->u.t_a);
    		break;
    	case PCN_t_b_PRESENT:
    		ret = PCN_t_b_Equal((&(pVal1->u.t_b)), (&(pVal2->u.t_b)));
    		break;
    	case PCN_t_c_PRESENT:
    		ret = (pVal1->u.t_c == pVal2->u.t_c);
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag PCN_t_b_IsConstraintValid(const PCN_t_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_PCN_T_B;

	return ret;
}

flag PCN_IsConstraintValid(const PCN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case PCN_t_a_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.t_a)), pErrCode);
            break;          
        case PCN_t_b_PRESENT : 
            ret = PCN_t_b_IsConstraintValid((&(pVal->u.t_b)), pErrCode);
            break;          
        case PCN_t_c_PRESENT : 
            ret = P32_IsConstraintValid((&(pVal->u.t_c)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_PCN;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void PCN_t_b_Initialize(PCN_t_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 6);
	pVal->nCount = 0;

}
void PCN_Initialize(PCN* pVal)
{
	(void)pVal;


	pVal->kind = PCN_t_a_PRESENT;
	pVal->u.t_a = 0UL;
}


flag DChN_t_Equal(const DChN_t* pVal1, const DChN_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DChN_Equal(const DChN* pVal1, const DChN* pVal2)
{
	flag ret=TRUE;

    ret = DHdr_Equal((&(pVal1->h)), (&(pVal2->h)));

    if (ret) {
        ret = (pVal1->m == pVal2->m);

        if (ret) {
            ret = PCN_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DChN_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag DChN_t_IsConstraintValid(const DChN_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCHN_T;

	return ret;
}

flag DChN_IsConstraintValid(const DChN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DHdr_IsConstraintValid((&(pVal->h)), pErrCode);
    if (ret) {
        ret = PCN_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            ret = DChN_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DChN_t_Initialize(DChN_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DChN_Initialize(DChN* pVal)
{
	(void)pVal;


	/*set h */
	DHdr_Initialize((&(pVal->h)));
	/*set m */
	pVal->m = FALSE;
	/*set b */
	PCN_Initialize((&(pVal->b)));
	/*set t */
	DChN_t_Initialize((&(pVal->t)));
}

flag DChN_ACN_Encode(const DChN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	TgN DChN_h_k;
	flag DChN_h_k_is_initialized=FALSE;
	asn1SccSint intVal_DChN_h_k;
    *pErrCode = 0;
	ret = bCheckConstraints ? DChN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h */
	    /*Encode v */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.v, 0, 7);
	    if (ret) {
	        switch (pVal->b.kind) {
	            case PCN_t_a_PRESENT:
	                DChN_h_k_is_initialized = TRUE;
	            	DChN_h_k = TgN_t_a;
	                break;
	            case PCN_t_b_PRESENT:
	                DChN_h_k_is_initialized = TRUE;
	            	DChN_h_k = TgN_t_b;
	                break;
	            case PCN_t_c_PRESENT:
	                DChN_h_k_is_initialized = TRUE;
	            	DChN_h_k = TgN_t_c;
	                break;
	            default:
	                ret = FALSE;                            /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Encode DChN_h_k */
	            if (DChN_h_k_is_initialized) {
	                ret = TRUE;
	                switch(DChN_h_k) {
	                    case TgN_t_a:
	                        intVal_DChN_h_k = -3LL;
	                        break;
	                    case TgN_t_b:
	                        intVal_DChN_h_k = 0LL;
	                        break;
	                    case TgN_t_c:
	                        intVal_DChN_h_k = 900LL;
	                        break;
	                    default:                                    /*COVERAGE_IGNORE*/
	                        ret = FALSE;                            /*COVERAGE_IGNORE*/
	                        *pErrCode = ERR_ACN_ENCODE_DCHN_H_K;                 /*COVERAGE_IGNORE*/
	                }
	                if (ret) {
	                	Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, intVal_DChN_h_k, 12);
	                }
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_DCHN_H_K_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode e */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h.e, 0, 3);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode m */
	        BitStream_AppendBit(pBitStrm,pVal->m);
	        if (ret) {
	            /*Encode b */
	            switch(pVal->b.kind)
	            {
	                case PCN_t_a_PRESENT:
	                	ret = P8_ACN_Encode((&(pVal->b.u.t_a)), pBitStrm, pErrCode, FALSE);
	                	break;
	                case PCN_t_b_PRESENT:
	                	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->b.u.t_b.nCount, 0, 6);
	                	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->b.u.t_b.arr, pVal->b.u.t_b.nCount);
	                	break;
	                case PCN_t_c_PRESENT:
	                	ret = P32_ACN_Encode((&(pVal->b.u.t_c)), pBitStrm, pErrCode, FALSE);
	                	break;
	            default:
	                *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	            if (ret) {
	                /*Encode t */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DChN_ACN_Decode(DChN* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	TgN DChN_h_k;
	asn1SccSint intVal_DChN_h_k;
	asn1SccSint nCount;

	/*Decode h */
	/*Decode v */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.v)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_H_V;
	if (ret) {
	    /*Decode DChN_h_k */
	    ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(intVal_DChN_h_k)), 12);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_H_K;
	    if (ret) {
	        switch (intVal_DChN_h_k) {
	            case -3:
	                DChN_h_k = TgN_t_a;
	                break;
	            case 0:
	                DChN_h_k = TgN_t_b;
	                break;
	            case 900:
	                DChN_h_k = TgN_t_c;
	                break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_DECODE_DCHN_H_K;                 /*COVERAGE_IGNORE*/
	        }
	    } /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Decode e */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h.e)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_H_E;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_M;
	    if (ret) {
	        /*Decode b */
	        switch(DChN_h_k)
	        {
	            case TgN_t_a:
	            	pVal->b.kind = PCN_t_a_PRESENT;
	            	ret = P8_ACN_Decode((&(pVal->b.u.t_a)), pBitStrm, pErrCode);
	            	break;
	            case TgN_t_b:
	            	pVal->b.kind = PCN_t_b_PRESENT;
	            	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 6);
	            	if (ret) {
	            	    pVal->b.u.t_b.nCount = (long)nCount;
	            	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->b.u.t_b.arr, pVal->b.u.t_b.nCount);
	            	}
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_B_T_B;
	            	break;
	            case TgN_t_c:
	            	pVal->b.kind = PCN_t_c_PRESENT;
	            	ret = P32_ACN_Decode((&(pVal->b.u.t_c)), pBitStrm, pErrCode);
	            	break;
	        default:
	            *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            /*Decode t */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCHN_T;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DChN_IsConstraintValid(pVal, pErrCode);
}


flag DAll_x_Equal(const DAll_x* pVal1, const DAll_x* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DAll_b_Equal(const DAll_b* pVal1, const DAll_b* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = DW12_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag DAll_Equal(const DAll* pVal1, const DAll* pVal2)
{
	flag ret=TRUE;

    ret = DAll_x_Equal((&(pVal1->x)), (&(pVal2->x)));

    if (ret) {
        ret = (pVal1->exist.a == pVal2->exist.a);
        if (ret && pVal1->exist.a) {
        	ret = DSh_Equal((&(pVal1->a)), (&(pVal2->a)));
        }

        if (ret) {
            ret = DAll_b_Equal((&(pVal1->b)), (&(pVal2->b)));

            if (ret) {
                ret = DFwd_Equal((&(pVal1->c)), (&(pVal2->c)));

                if (ret) {
                    ret = DCo_Equal((&(pVal1->d)), (&(pVal2->d)));

                    if (ret) {
                        ret = DChN_Equal((&(pVal1->e)), (&(pVal2->e)));

                        if (ret) {
                            ret = DPrB_Equal((&(pVal1->f)), (&(pVal2->f)));

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag DAll_x_IsConstraintValid(const DAll_x* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_DALL_X;

	return ret;
}

flag DAll_b_IsConstraintValid(const DAll_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_DALL_B;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = DW12_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag DAll_IsConstraintValid(const DAll* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DAll_x_IsConstraintValid((&(pVal->x)), pErrCode);
    if (ret) {
        if (pVal->exist.a) {
        	ret = DSh_IsConstraintValid((&(pVal->a)), pErrCode);
        }
        if (ret) {
            ret = DAll_b_IsConstraintValid((&(pVal->b)), pErrCode);
            if (ret) {
                ret = DFwd_IsConstraintValid((&(pVal->c)), pErrCode);
                if (ret) {
                    ret = DCo_IsConstraintValid((&(pVal->d)), pErrCode);
                    if (ret) {
                        ret = DChN_IsConstraintValid((&(pVal->e)), pErrCode);
                        if (ret) {
                            ret = DPrB_IsConstraintValid((&(pVal->f)), pErrCode);
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DAll_x_Initialize(DAll_x* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DAll_b_Initialize(DAll_b* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    DW12_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void DAll_Initialize(DAll* pVal)
{
	(void)pVal;


	/*set x */
	DAll_x_Initialize((&(pVal->x)));
	/*set a */
	pVal->exist.a = 1;
	DSh_Initialize((&(pVal->a)));
	/*set b */
	DAll_b_Initialize((&(pVal->b)));
	/*set c */
	DFwd_Initialize((&(pVal->c)));
	/*set d */
	DCo_Initialize((&(pVal->d)));
	/*set e */
	DChN_Initialize((&(pVal->e)));
	/*set f */
	DPrB_Initialize((&(pVal->f)));
}

flag DAll_ACN_Encode(const DAll* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DAll_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.a);
	    if (ret) {
	        /*Encode x */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->x, 0, 7);
	        if (ret) {
	            /*Encode a */
	            if (pVal->exist.a) {
	            	ret = DSh_ACN_Encode((&(pVal->a)), pBitStrm, pErrCode, FALSE);
	            }
	            if (ret) {
	                /*Encode b */
	                BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->b.nCount, 0, 4);
	                for(i1=0; (i1 < (int)pVal->b.nCount) && ret; i1++)
	                {
	                	ret = DW12_ACN_Encode((&(pVal->b.arr[i1])), pBitStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode c */
	                    ret = DFwd_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode d */
	                        ret = DCo_ACN_Encode((&(pVal->d)), pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode e */
	                            ret = DChN_ACN_Encode((&(pVal->e)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode f */
	                                ret = DPrB_ACN_Encode((&(pVal->f)), pBitStrm, pErrCode, FALSE);
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DAll_ACN_Decode(DAll* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag a_exist;
	int i1;
	asn1SccSint nCount;

	ret = BitStream_ReadBit(pBitStrm, &a_exist);
	pVal->exist.a = a_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DALL;
	if (ret) {
	    /*Decode x */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->x)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DALL_X;
	    if (ret) {
	        /*Decode a */
	        if (pVal->exist.a) {
	        	ret = DSh_ACN_Decode((&(pVal->a)), pBitStrm, pErrCode);
	        }
	        if (ret) {
	            /*Decode b */
	            ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 4);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DALL_B;
	            pVal->b.nCount = (long)nCount;
	            for(i1=0; (i1 < (int)pVal->b.nCount) && ret; i1++)
	            {
	            	ret = DW12_ACN_Decode((&(pVal->b.arr[i1])), pBitStrm, pErrCode);
	            }
	            if (ret) {
	                /*Decode c */
	                ret = DFwd_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode d */
	                    ret = DCo_ACN_Decode((&(pVal->d)), pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode e */
	                        ret = DChN_ACN_Decode((&(pVal->e)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode f */
	                            ret = DPrB_ACN_Decode((&(pVal->f)), pBitStrm, pErrCode);
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DAll_IsConstraintValid(pVal, pErrCode);
}


