/*
Code automatically generated by asn1scc tool
*/
#include <limits.h>
#include <string.h>
#include <math.h>

#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"

#include "ACM.h"


flag P5_Equal(const P5* pVal1, const P5* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P5_IsConstraintValid(const P5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_P5;

	return ret;
}

void P5_Initialize(P5* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P5_ACN_Encode(const P5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, (*(pVal)), 5);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P5_ACN_Decode(P5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, pVal, 5);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P5;

    return ret && P5_IsConstraintValid(pVal, pErrCode);
}


flag DSz_d_o_Equal(const DSz_d_o* pVal1, const DSz_d_o* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag DSz_d_m_Equal(const DSz_d_m* pVal1, const DSz_d_m* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DSz_d_b_Equal(const DSz_d_b* pVal1, const DSz_d_b* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag DSz_d_q_Equal(const DSz_d_q* pVal1, const DSz_d_q* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag DSz_d_s_Equal(const DSz_d_s pVal1, const DSz_d_s pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag DSz_d_t_Equal(const DSz_d_t pVal1, const DSz_d_t pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag DSz_Equal(const DSz* pVal1, const DSz* pVal2)
{
	flag ret=TRUE;

    ret = DSz_d_o_Equal((&(pVal1->d_o)), (&(pVal2->d_o)));

    if (ret) {
        ret = DSz_d_m_Equal((&(pVal1->d_m)), (&(pVal2->d_m)));

        if (ret) {
            ret = DSz_d_b_Equal((&(pVal1->d_b)), (&(pVal2->d_b)));

            if (ret) {
                ret = DSz_d_q_Equal((&(pVal1->d_q)), (&(pVal2->d_q)));

                if (ret) {
                    ret = DSz_d_s_Equal(pVal1->d_s, pVal2->d_s);

                    if (ret) {
                        ret = DSz_d_t_Equal(pVal1->d_t, pVal2->d_t);

                    }

                }

            }

        }

    }

	return ret;

}

flag DSz_d_o_IsConstraintValid(const DSz_d_o* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 60);
    *pErrCode = ret ? 0 :  ERR_DSZ_D_O;

	return ret;
}

flag DSz_d_m_IsConstraintValid(const DSz_d_m* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_DSZ_D_M;

	return ret;
}

flag DSz_d_b_IsConstraintValid(const DSz_d_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 90);
    *pErrCode = ret ? 0 :  ERR_DSZ_D_B;

	return ret;
}

flag DSz_d_q_IsConstraintValid(const DSz_d_q* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 9);
    *pErrCode = ret ? 0 :  ERR_DSZ_D_Q;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = P5_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag DSz_d_s_IsConstraintValid(const DSz_d_s pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 15);
    *pErrCode = ret ? 0 :  ERR_DSZ_D_S;

	return ret;
}

flag DSz_d_t_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((('A' <= str[i]) && (str[i] <= 'Z')));
        i = i + 1;
    }
    return ret;
}
flag DSz_d_t_IsConstraintValid(const DSz_d_t pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 6);
    if (ret) {
        ret = DSz_d_t_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_DSZ_D_T;

	return ret;
}

flag DSz_IsConstraintValid(const DSz* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DSz_d_o_IsConstraintValid((&(pVal->d_o)), pErrCode);
    if (ret) {
        ret = DSz_d_m_IsConstraintValid((&(pVal->d_m)), pErrCode);
        if (ret) {
            ret = DSz_d_b_IsConstraintValid((&(pVal->d_b)), pErrCode);
            if (ret) {
                ret = DSz_d_q_IsConstraintValid((&(pVal->d_q)), pErrCode);
                if (ret) {
                    ret = DSz_d_s_IsConstraintValid(pVal->d_s, pErrCode);
                    if (ret) {
                        ret = DSz_d_t_IsConstraintValid(pVal->d_t, pErrCode);
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DSz_d_o_Initialize(DSz_d_o* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 60);
	pVal->nCount = 0;

}
void DSz_d_m_Initialize(DSz_d_m* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DSz_d_b_Initialize(DSz_d_b* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 96/8);

	pVal->nCount = 0;
}
void DSz_d_q_Initialize(DSz_d_q* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 9) {
	    pVal->arr[i1] = 0UL;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void DSz_d_s_Initialize(DSz_d_s pVal)
{
	(void)pVal;


	memset(pVal, ' ', 15);
	pVal[15] = 0;

}
void DSz_d_t_Initialize(DSz_d_t pVal)
{
	(void)pVal;


	memset(pVal, 'A', 6);
	pVal[6] = 0;

}
void DSz_Initialize(DSz* pVal)
{
	(void)pVal;


	/*set d_o */
	DSz_d_o_Initialize((&(pVal->d_o)));
	/*set d_m */
	DSz_d_m_Initialize((&(pVal->d_m)));
	/*set d_b */
	DSz_d_b_Initialize((&(pVal->d_b)));
	/*set d_q */
	DSz_d_q_Initialize((&(pVal->d_q)));
	/*set d_s */
	DSz_d_s_Initialize(pVal->d_s);
	/*set d_t */
	DSz_d_t_Initialize(pVal->d_t);
}

flag DSz_ACN_Encode(const DSz* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DSz_len_o;
	flag DSz_len_o_is_initialized=FALSE;
	asn1SccUint DSz_len_b;
	flag DSz_len_b_is_initialized=FALSE;
	asn1SccUint DSz_len_q;
	flag DSz_len_q_is_initialized=FALSE;
	asn1SccUint DSz_len_s;
	flag DSz_len_s_is_initialized=FALSE;
	asn1SccUint DSz_len_t;
	flag DSz_len_t_is_initialized=FALSE;
	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? DSz_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    DSz_len_o_is_initialized = TRUE;
	    DSz_len_o = pVal->d_o.nCount;
	    if (ret) {
	        /*Encode DSz_len_o */
	        if (DSz_len_o_is_initialized) {
	            ret = TRUE;
	            Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DSz_len_o);
	        } else {
	            *pErrCode = ERR_ACN_ENCODE_DSZ_LEN_O_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode d_o */
	        ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->d_o.arr, pVal->d_o.nCount);
	        if (ret) {
	            DSz_len_b_is_initialized = TRUE;
	            DSz_len_b = pVal->d_b.nCount;
	            if (ret) {
	                /*Encode DSz_len_b */
	                if (DSz_len_b_is_initialized) {
	                    ret = TRUE;
	                    Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, DSz_len_b);
	                } else {
	                    *pErrCode = ERR_ACN_ENCODE_DSZ_LEN_B_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                    ret = FALSE;                    /*COVERAGE_IGNORE*/
	                }
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode d_m */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->d_m, 0, 3);
	                if (ret) {
	                    /*Encode d_b */
	                    BitStream_AppendBits(pBitStrm, pVal->d_b.arr, pVal->d_b.nCount);
	                    if (ret) {
	                        DSz_len_q_is_initialized = TRUE;
	                        DSz_len_q = pVal->d_q.nCount;
	                        if (ret) {
	                            /*Encode DSz_len_q */
	                            if (DSz_len_q_is_initialized) {
	                                ret = TRUE;
	                                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DSz_len_q, 5);
	                            } else {
	                                *pErrCode = ERR_ACN_ENCODE_DSZ_LEN_Q_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                                ret = FALSE;                    /*COVERAGE_IGNORE*/
	                            }
	                        }   /*COVERAGE_IGNORE*/
	                        if (ret) {
	                            DSz_len_s_is_initialized = TRUE;
	                            DSz_len_s = strlen(pVal->d_s);
	                            if (ret) {
	                                /*Encode DSz_len_s */
	                                if (DSz_len_s_is_initialized) {
	                                    ret = TRUE;
	                                    Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DSz_len_s);
	                                } else {
	                                    *pErrCode = ERR_ACN_ENCODE_DSZ_LEN_S_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                                    ret = FALSE;                    /*COVERAGE_IGNORE*/
	                                }
	                            }   /*COVERAGE_IGNORE*/
	                            if (ret) {
	                                /*Encode d_q */
	                                for(i1=0; (i1 < (int)pVal->d_q.nCount) && ret; i1++)
	                                {
	                                	ret = P5_ACN_Encode((&(pVal->d_q.arr[i1])), pBitStrm, pErrCode, FALSE);
	                                }
	                                if (ret) {
	                                    /*Encode d_s */
	                                    Acn_Enc_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 15, pVal->d_s);
	                                    if (ret) {
	                                        DSz_len_t_is_initialized = TRUE;
	                                        DSz_len_t = strlen(pVal->d_t);
	                                        if (ret) {
	                                            /*Encode DSz_len_t */
	                                            if (DSz_len_t_is_initialized) {
	                                                ret = TRUE;
	                                                Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, DSz_len_t, 3);
	                                            } else {
	                                                *pErrCode = ERR_ACN_ENCODE_DSZ_LEN_T_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                                                ret = FALSE;                    /*COVERAGE_IGNORE*/
	                                            }
	                                        }   /*COVERAGE_IGNORE*/
	                                        if (ret) {
	                                            /*Encode d_t */
	                                            Acn_Enc_String_Ascii_External_Field_Determinant(pBitStrm, 6, pVal->d_t);
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DSz_ACN_Decode(DSz* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DSz_len_o;
	asn1SccUint DSz_len_b;
	asn1SccUint DSz_len_q;
	asn1SccUint DSz_len_s;
	asn1SccUint DSz_len_t;
	int i1;

	/*Decode DSz_len_o */
	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DSz_len_o)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_LEN_O;
	if (ret) {
	    /*Decode d_o */
	    ret = (DSz_len_o<=60);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_O;
	    if (ret) {
	        pVal->d_o.nCount = (int)DSz_len_o;
	        ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->d_o.arr, pVal->d_o.nCount);
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_O;
	    }
	    if (ret) {
	        /*Decode DSz_len_b */
	        ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, (&(DSz_len_b)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_LEN_B;
	        if (ret) {
	            /*Decode d_m */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->d_m)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_M;
	            if (ret) {
	                /*Decode d_b */
	                ret = (DSz_len_b<=90);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_B;
	                if (ret) {
	                    pVal->d_b.nCount = (int)DSz_len_b;
	                    ret = BitStream_ReadBits(pBitStrm, pVal->d_b.arr, pVal->d_b.nCount);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_B;
	                }
	                if (ret) {
	                    /*Decode DSz_len_q */
	                    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DSz_len_q)), 5);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_LEN_Q;
	                    if (ret) {
	                        /*Decode DSz_len_s */
	                        ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DSz_len_s)));
	                        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_LEN_S;
	                        if (ret) {
	                            /*Decode d_q */
	                            ret = ((DSz_len_q<=9));
	                            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_Q;
	                            if (ret) {
	                                pVal->d_q.nCount = (int)DSz_len_q;
	                                for(i1=0; (i1 < (int)pVal->d_q.nCount) && ret; i1++)
	                                {
	                                	ret = P5_ACN_Decode((&(pVal->d_q.arr[i1])), pBitStrm, pErrCode);
	                                }
	                            }
	                            if (ret) {
	                                /*Decode d_s */
	                                ret = Acn_Dec_IA5String_CharIndex_External_Field_Determinant(pBitStrm, 15, DSz_len_s, pVal->d_s);
	                                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_S;
	                                if (ret) {
	                                    /*Decode DSz_len_t */
	                                    ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, (&(DSz_len_t)), 3);
	                                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_LEN_T;
	                                    if (ret) {
	                                        /*Decode d_t */
	                                        ret = Acn_Dec_String_Ascii_External_Field_Determinant(pBitStrm, 6, DSz_len_t, pVal->d_t);
	                                        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DSZ_D_T;
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DSz_IsConstraintValid(pVal, pErrCode);
}


flag ALog_Equal(const ALog* pVal1, const ALog* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = DSz_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag ALog_IsConstraintValid(const ALog* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_ALOG;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = DSz_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void ALog_Initialize(ALog* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    DSz_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag ALog_ACN_Encode(const ALog* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? ALog_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 4);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	ret = DSz_ACN_Encode((&(pVal->arr[i1])), pBitStrm, pErrCode, FALSE);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag ALog_ACN_Decode(ALog* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 4);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ALOG;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = DSz_ACN_Decode((&(pVal->arr[i1])), pBitStrm, pErrCode);
	}

    return ret && ALog_IsConstraintValid(pVal, pErrCode);
}


flag P8_Equal(const P8* pVal1, const P8* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P8_IsConstraintValid(const P8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 255UL);
    *pErrCode = ret ? 0 :  ERR_P8;

	return ret;
}

void P8_Initialize(P8* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P8_ACN_Encode(const P8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P8_ACN_Decode(P8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P8;

    return ret && P8_IsConstraintValid(pVal, pErrCode);
}


flag Body_b_m_Equal(const Body_b_m* pVal1, const Body_b_m* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Body_b_o_Equal(const Body_b_o* pVal1, const Body_b_o* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag Body_Equal(const Body* pVal1, const Body* pVal2)
{
	flag ret=TRUE;

    ret = Body_b_m_Equal((&(pVal1->b_m)), (&(pVal2->b_m)));

    if (ret) {
        ret = Body_b_o_Equal((&(pVal1->b_o)), (&(pVal2->b_o)));

        if (ret) {
            ret = (pVal1->exist.b_p == pVal2->exist.b_p);
            if (ret && pVal1->exist.b_p) {
            	ret = (pVal1->b_p == pVal2->b_p);
            }

        }

    }

	return ret;

}

flag Body_b_m_IsConstraintValid(const Body_b_m* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_BODY_B_M;

	return ret;
}

flag Body_b_o_IsConstraintValid(const Body_b_o* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 20);
    *pErrCode = ret ? 0 :  ERR_BODY_B_O;

	return ret;
}

flag Body_IsConstraintValid(const Body* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Body_b_m_IsConstraintValid((&(pVal->b_m)), pErrCode);
    if (ret) {
        ret = Body_b_o_IsConstraintValid((&(pVal->b_o)), pErrCode);
        if (ret) {
            if (pVal->exist.b_p) {
            	ret = P8_IsConstraintValid((&(pVal->b_p)), pErrCode);
            }
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Body_b_m_Initialize(Body_b_m* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Body_b_o_Initialize(Body_b_o* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 20);
	pVal->nCount = 0;

}
void Body_Initialize(Body* pVal)
{
	(void)pVal;


	/*set b_m */
	Body_b_m_Initialize((&(pVal->b_m)));
	/*set b_o */
	Body_b_o_Initialize((&(pVal->b_o)));
	/*set b_p */
	pVal->exist.b_p = 1;
	P8_Initialize((&(pVal->b_p)));
}


flag PktI_hdr_h_ver_Equal(const PktI_hdr_h_ver* pVal1, const PktI_hdr_h_ver* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag PktI_hdr_h_end_Equal(const PktI_hdr_h_end* pVal1, const PktI_hdr_h_end* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag PktI_hdr_Equal(const PktI_hdr* pVal1, const PktI_hdr* pVal2)
{
	flag ret=TRUE;

    ret = PktI_hdr_h_ver_Equal((&(pVal1->h_ver)), (&(pVal2->h_ver)));

    if (ret) {
        ret = PktI_hdr_h_end_Equal((&(pVal1->h_end)), (&(pVal2->h_end)));

    }

	return ret;

}

flag PktI_Equal(const PktI* pVal1, const PktI* pVal2)
{
	flag ret=TRUE;

    ret = PktI_hdr_Equal((&(pVal1->hdr)), (&(pVal2->hdr)));

    if (ret) {
        ret = Body_Equal((&(pVal1->bdy)), (&(pVal2->bdy)));

        if (ret) {
            ret = (pVal1->trail == pVal2->trail);

        }

    }

	return ret;

}

flag PktI_hdr_h_ver_IsConstraintValid(const PktI_hdr_h_ver* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_PKTI_HDR_H_VER;

	return ret;
}

flag PktI_hdr_h_end_IsConstraintValid(const PktI_hdr_h_end* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_PKTI_HDR_H_END;

	return ret;
}

flag PktI_hdr_IsConstraintValid(const PktI_hdr* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = PktI_hdr_h_ver_IsConstraintValid((&(pVal->h_ver)), pErrCode);
    if (ret) {
        ret = PktI_hdr_h_end_IsConstraintValid((&(pVal->h_end)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag PktI_IsConstraintValid(const PktI* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = PktI_hdr_IsConstraintValid((&(pVal->hdr)), pErrCode);
    if (ret) {
        ret = Body_IsConstraintValid((&(pVal->bdy)), pErrCode);
        if (ret) {
            ret = P8_IsConstraintValid((&(pVal->trail)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void PktI_hdr_h_ver_Initialize(PktI_hdr_h_ver* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void PktI_hdr_h_end_Initialize(PktI_hdr_h_end* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void PktI_hdr_Initialize(PktI_hdr* pVal)
{
	(void)pVal;


	/*set h_ver */
	PktI_hdr_h_ver_Initialize((&(pVal->h_ver)));
	/*set h_end */
	PktI_hdr_h_end_Initialize((&(pVal->h_end)));
}
void PktI_Initialize(PktI* pVal)
{
	(void)pVal;


	/*set hdr */
	PktI_hdr_Initialize((&(pVal->hdr)));
	/*set bdy */
	Body_Initialize((&(pVal->bdy)));
	/*set trail */
	P8_Initialize((&(pVal->trail)));
}

flag PktI_ACN_Encode(const PktI* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint PktI_hdr_plen1;
	flag PktI_hdr_plen1_is_initialized=FALSE;
	flag PktI_hdr_pfl1;
	flag PktI_hdr_pfl1_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? PktI_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode hdr */
	    /*Encode h_ver */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->hdr.h_ver, 0, 7);
	    if (ret) {
	        PktI_hdr_plen1_is_initialized = TRUE;
	        PktI_hdr_plen1 = pVal->bdy.b_o.nCount;
	        if (ret) {
	            /*Encode PktI_hdr_plen1 */
	            if (PktI_hdr_plen1_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, PktI_hdr_plen1);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_PKTI_HDR_PLEN1_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            PktI_hdr_pfl1_is_initialized = TRUE;
	            PktI_hdr_pfl1 = (pVal->bdy.exist.b_p == 1);
	            if (ret) {
	                /*Encode PktI_hdr_pfl1 */
	                if (PktI_hdr_pfl1_is_initialized) {
	                    ret = TRUE;
	                    BitStream_AppendBit(pBitStrm,PktI_hdr_pfl1);
	                } else {
	                    *pErrCode = ERR_ACN_ENCODE_PKTI_HDR_PFL1_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                    ret = FALSE;                    /*COVERAGE_IGNORE*/
	                }
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode h_end */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->hdr.h_end, 0, 3);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode bdy */
	        /*Encode b_m */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->bdy.b_m, 0, 7);
	        if (ret) {
	            /*Encode b_o */
	            ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->bdy.b_o.arr, pVal->bdy.b_o.nCount);
	            if (ret) {
	                /*Encode b_p */
	                if (pVal->bdy.exist.b_p) {
	                	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->bdy.b_p);
	                }
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode trail */
	            ret = P8_ACN_Encode((&(pVal->trail)), pBitStrm, pErrCode, FALSE);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag PktI_ACN_Decode(PktI* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint PktI_hdr_plen1;
	flag PktI_hdr_pfl1;

	/*Decode hdr */
	/*Decode h_ver */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->hdr.h_ver)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_HDR_H_VER;
	if (ret) {
	    /*Decode PktI_hdr_plen1 */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(PktI_hdr_plen1)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_HDR_PLEN1;
	    if (ret) {
	        /*Decode PktI_hdr_pfl1 */
	        ret = BitStream_ReadBit(pBitStrm, (&(PktI_hdr_pfl1)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_HDR_PFL1;
	        if (ret) {
	            /*Decode h_end */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->hdr.h_end)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_HDR_H_END;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode bdy */
	    /*Decode b_m */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->bdy.b_m)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_BDY_B_M;
	    if (ret) {
	        /*Decode b_o */
	        ret = (PktI_hdr_plen1<=20);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_BDY_B_O;
	        if (ret) {
	            pVal->bdy.b_o.nCount = (int)PktI_hdr_plen1;
	            ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->bdy.b_o.arr, pVal->bdy.b_o.nCount);
	        	*pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_BDY_B_O;
	        }
	        if (ret) {
	            pVal->bdy.exist.b_p = PktI_hdr_pfl1 ? 1 : 0;
	            /*Decode b_p */
	            if (pVal->bdy.exist.b_p) {
	            	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->bdy.b_p)));
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_PKTI_BDY_B_P;
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Decode trail */
	        ret = P8_ACN_Decode((&(pVal->trail)), pBitStrm, pErrCode);
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && PktI_IsConstraintValid(pVal, pErrCode);
}


flag CnF_a_Equal(const CnF_a* pVal1, const CnF_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnF_Equal(const CnF* pVal1, const CnF* pVal2)
{
	flag ret=TRUE;

    ret = CnF_a_Equal((&(pVal1->a)), (&(pVal2->a)));

    if (ret) {
        ret = (pVal1->b == pVal2->b);

    }

	return ret;

}

flag CnF_a_IsConstraintValid(const CnF_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNF_A;

	return ret;
}

flag CnF_IsConstraintValid(const CnF* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnF_a_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        ret = P8_IsConstraintValid((&(pVal->b)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnF_a_Initialize(CnF_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnF_Initialize(CnF* pVal)
{
	(void)pVal;


	/*set a */
	CnF_a_Initialize((&(pVal->a)));
	/*set b */
	P8_Initialize((&(pVal->b)));
}

flag CnF_ACN_Encode(const CnF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? CnF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode a */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a, 0, 7);
	    if (ret) {
	        /*Encode b */
	        ret = P8_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE);
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnF_ACN_Decode(CnF* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode a */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CNF_A;
	if (ret) {
	    /*Decode b */
	    ret = P8_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode);
	}   /*COVERAGE_IGNORE*/

    return ret && CnF_IsConstraintValid(pVal, pErrCode);
}


flag CnX_p_Equal(const CnX_p* pVal1, const CnX_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnX_t_Equal(const CnX_t* pVal1, const CnX_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnX_Equal(const CnX* pVal1, const CnX* pVal2)
{
	flag ret=TRUE;

    ret = CnX_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnF_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = (pVal1->exist.d == pVal2->exist.d);
            if (ret && pVal1->exist.d) {
            	ret = CnF_Equal((&(pVal1->d)), (&(pVal2->d)));
            }

            if (ret) {
                ret = CnX_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag CnX_p_IsConstraintValid(const CnX_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNX_P;

	return ret;
}

flag CnX_t_IsConstraintValid(const CnX_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_CNX_T;

	return ret;
}

flag CnX_IsConstraintValid(const CnX* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnX_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnF_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            if (pVal->exist.d) {
            	ret = CnF_IsConstraintValid((&(pVal->d)), pErrCode);
            }
            if (ret) {
                ret = CnX_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnX_p_Initialize(CnX_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnX_t_Initialize(CnX_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnX_Initialize(CnX* pVal)
{
	(void)pVal;


	/*set p */
	CnX_p_Initialize((&(pVal->p)));
	/*set c */
	CnF_Initialize((&(pVal->c)));
	/*set d */
	pVal->exist.d = 1;
	CnF_Initialize((&(pVal->d)));
	/*set t */
	CnX_t_Initialize((&(pVal->t)));
}

flag CnX_ACN_Encode(const CnX* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? CnX_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.d);
	    if (ret) {
	        /*Encode p */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->p, 0, 7);
	        if (ret) {
	            /*Encode c */
	            /*open new scope to declare some variables*/
	            {
	            	/*encode to a temporary bitstream*/
	            	byte arr[CnF_REQUIRED_BYTES_FOR_ACN_ENCODING];
	            	BitStream bitStrm;
	            	BitStream_Init(&bitStrm, arr, sizeof(arr));

	            	ret = CnF_ACN_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	            	if (ret) {
	            		int nCount = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	            		ret = BitStream_EncodeOctetString_no_length(pBitStrm, arr, nCount);

	            	}
	            }
	            if (ret) {
	                /*Encode d */
	                if (pVal->exist.d) {
	                	/*open new scope to declare some variables*/
	                	{
	                		/*encode to a temporary bitstream*/
	                		byte arr[CnF_REQUIRED_BYTES_FOR_ACN_ENCODING];
	                		BitStream bitStrm;
	                		BitStream_Init(&bitStrm, arr, sizeof(arr));

	                		ret = CnF_ACN_Encode((&(pVal->d)), &bitStrm, pErrCode, FALSE);
	                		if (ret) {
	                			int nCount = bitStrm.currentByte*8 + bitStrm.currentBit;
	                			BitStream_AppendBits(pBitStrm, arr, nCount);



	                		}
	                	}
	                }
	                if (ret) {
	                    /*Encode t */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnX_ACN_Decode(CnX* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag d_exist;

	ret = BitStream_ReadBit(pBitStrm, &d_exist);
	pVal->exist.d = d_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CNX;
	if (ret) {
	    /*Decode p */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->p)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_CNX_P;
	    if (ret) {
	        /*Decode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*decode to a temporary bitstream*/
	        	byte arr[CnF_REQUIRED_BYTES_FOR_ACN_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));

	        	ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, 2);

	        	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	        	if (ret) {
	        		ret = CnF_ACN_Decode((&(pVal->c)), &bitStrm, pErrCode);
	        	}
	        }
	        if (ret) {
	            /*Decode d */
	            if (pVal->exist.d) {
	            	/*open new scope to declare some variables*/
	            	{
	            		/*decode to a temporary bitstream*/
	            		byte arr[CnF_REQUIRED_BYTES_FOR_ACN_ENCODING];
	            		BitStream bitStrm;
	            		BitStream_Init(&bitStrm, arr, sizeof(arr));

	            		ret = BitStream_ReadBits(pBitStrm, arr, 11);

	            		*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	            		if (ret) {
	            			ret = CnF_ACN_Decode((&(pVal->d)), &bitStrm, pErrCode);
	            		}
	            	}
	            }
	            if (ret) {
	                /*Decode t */
	                ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_CNX_T;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && CnX_IsConstraintValid(pVal, pErrCode);
}


flag P16_Equal(const P16* pVal1, const P16* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P16_IsConstraintValid(const P16* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 65535UL);
    *pErrCode = ret ? 0 :  ERR_P16;

	return ret;
}

void P16_Initialize(P16* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P16_ACN_Encode(const P16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P16_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P16_ACN_Decode(P16* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P16;

    return ret && P16_IsConstraintValid(pVal, pErrCode);
}


flag P16L_Equal(const P16L* pVal1, const P16L* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P16L_IsConstraintValid(const P16L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 65535UL);
    *pErrCode = ret ? 0 :  ERR_P16L;

	return ret;
}

void P16L_Initialize(P16L* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P16L_ACN_Encode(const P16L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P16L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P16L_ACN_Decode(P16L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P16L;

    return ret && P16L_IsConstraintValid(pVal, pErrCode);
}


flag P32_Equal(const P32* pVal1, const P32* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P32_IsConstraintValid(const P32* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void P32_Initialize(P32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P32_ACN_Encode(const P32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P32_ACN_Decode(P32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P32;

    return ret && P32_IsConstraintValid(pVal, pErrCode);
}


flag P32L_Equal(const P32L* pVal1, const P32L* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P32L_IsConstraintValid(const P32L* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void P32L_Initialize(P32L* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag P32L_ACN_Encode(const P32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P32L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P32L_ACN_Decode(P32L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P32L;

    return ret && P32L_IsConstraintValid(pVal, pErrCode);
}


flag P24_Equal(const P24* pVal1, const P24* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag P24_IsConstraintValid(const P24* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((3UL <= (*(pVal))) && ((*(pVal)) <= 16777211UL));
    *pErrCode = ret ? 0 :  ERR_P24;

	return ret;
}

void P24_Initialize(P24* pVal)
{
	(void)pVal;


	(*(pVal)) = 3UL;
}

flag P24_ACN_Encode(const P24* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? P24_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_PositiveInteger_ConstSize(pBitStrm, (*(pVal)), 24);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag P24_ACN_Decode(P24* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, pVal, 24);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_P24;

    return ret && P24_IsConstraintValid(pVal, pErrCode);
}


flag T5_Equal(const T5* pVal1, const T5* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag T5_IsConstraintValid(const T5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-16LL <= (*(pVal))) && ((*(pVal)) <= 15LL));
    *pErrCode = ret ? 0 :  ERR_T5;

	return ret;
}

void T5_Initialize(T5* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag T5_ACN_Encode(const T5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? T5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, (*(pVal)), 5);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag T5_ACN_Decode(T5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, pVal, 5);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_T5;

    return ret && T5_IsConstraintValid(pVal, pErrCode);
}


flag T8_Equal(const T8* pVal1, const T8* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag T8_IsConstraintValid(const T8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-128LL <= (*(pVal))) && ((*(pVal)) <= 127LL));
    *pErrCode = ret ? 0 :  ERR_T8;

	return ret;
}

void T8_Initialize(T8* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag T8_ACN_Encode(const T8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? T8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_TwosComplement_ConstSize_8(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag T8_ACN_Decode(T8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_T8;

    return ret && T8_IsConstraintValid(pVal, pErrCode);
}


flag T16_Equal(const T16* pVal1, const T16* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag T16_IsConstraintValid(const T16* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-32768LL <= (*(pVal))) && ((*(pVal)) <= 32767LL));
    *pErrCode = ret ? 0 :  ERR_T16;

	return ret;
}

void T16_Initialize(T16* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag T16_ACN_Encode(const T16* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? T16_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag T16_ACN_Decode(T16* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_T16;

    return ret && T16_IsConstraintValid(pVal, pErrCode);
}


flag ASo_Equal(const ASo* pVal1, const ASo* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag ASo_IsConstraintValid(const ASo* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 7);
    *pErrCode = ret ? 0 :  ERR_ASO;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = T16_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void ASo_Initialize(ASo* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 7) {
	    pVal->arr[i1] = 0LL;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag ASo_ACN_Encode(const ASo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? ASo_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 7);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	ret = T16_ACN_Encode((&(pVal->arr[i1])), pBitStrm, pErrCode, FALSE);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag ASo_ACN_Decode(ASo* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ASO;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = T16_ACN_Decode((&(pVal->arr[i1])), pBitStrm, pErrCode);
	}

    return ret && ASo_IsConstraintValid(pVal, pErrCode);
}


flag T16L_Equal(const T16L* pVal1, const T16L* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag T16L_IsConstraintValid(const T16L* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-32768LL <= (*(pVal))) && ((*(pVal)) <= 32767LL));
    *pErrCode = ret ? 0 :  ERR_T16L;

	return ret;
}

void T16L_Initialize(T16L* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag T16L_ACN_Encode(const T16L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? T16L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag T16L_ACN_Decode(T16L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_T16L;

    return ret && T16L_IsConstraintValid(pVal, pErrCode);
}


flag T32_Equal(const T32* pVal1, const T32* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag T32_IsConstraintValid(const T32* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void T32_Initialize(T32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag T32_ACN_Encode(const T32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? T32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag T32_ACN_Decode(T32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_T32;

    return ret && T32_IsConstraintValid(pVal, pErrCode);
}


flag T32L_Equal(const T32L* pVal1, const T32L* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag T32L_IsConstraintValid(const T32L* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void T32L_Initialize(T32L* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag T32L_ACN_Encode(const T32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? T32L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag T32L_ACN_Decode(T32L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_T32L;

    return ret && T32L_IsConstraintValid(pVal, pErrCode);
}


flag T20_Equal(const T20* pVal1, const T20* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag T20_IsConstraintValid(const T20* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-524288LL <= (*(pVal))) && ((*(pVal)) <= 524285LL));
    *pErrCode = ret ? 0 :  ERR_T20;

	return ret;
}

void T20_Initialize(T20* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag T20_ACN_Encode(const T20* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? T20_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, (*(pVal)), 20);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag T20_ACN_Decode(T20* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, pVal, 20);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_T20;

    return ret && T20_IsConstraintValid(pVal, pErrCode);
}


flag Bcd5_Equal(const Bcd5* pVal1, const Bcd5* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Bcd5_IsConstraintValid(const Bcd5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 99999UL);
    *pErrCode = ret ? 0 :  ERR_BCD5;

	return ret;
}

void Bcd5_Initialize(Bcd5* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag Bcd5_ACN_Encode(const Bcd5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Bcd5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Int_BCD_ConstSize(pBitStrm, (*(pVal)), 5);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Bcd5_ACN_Decode(Bcd5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, pVal, 5);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_BCD5;

    return ret && Bcd5_IsConstraintValid(pVal, pErrCode);
}


flag As6_Equal(const As6* pVal1, const As6* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag As6_IsConstraintValid(const As6* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 99999UL);
    *pErrCode = ret ? 0 :  ERR_AS6;

	return ret;
}

void As6_Initialize(As6* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag As6_ACN_Encode(const As6* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? As6_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_UInt_ASCII_ConstSize(pBitStrm, (*(pVal)), 6);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag As6_ACN_Decode(As6* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, pVal, 6);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_AS6;

    return ret && As6_IsConstraintValid(pVal, pErrCode);
}


flag AsS_Equal(const AsS* pVal1, const AsS* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag AsS_IsConstraintValid(const AsS* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-9999LL <= (*(pVal))) && ((*(pVal)) <= 9999LL));
    *pErrCode = ret ? 0 :  ERR_ASS;

	return ret;
}

void AsS_Initialize(AsS* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag AsS_ACN_Encode(const AsS* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? AsS_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_SInt_ASCII_ConstSize(pBitStrm, (*(pVal)), 5);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag AsS_ACN_Decode(AsS* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, pVal, 5);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ASS;

    return ret && AsS_IsConstraintValid(pVal, pErrCode);
}


flag AU_Equal(const AU* pVal1, const AU* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag AU_IsConstraintValid(const AU* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((3UL <= (*(pVal))) && ((*(pVal)) <= 74UL));
    *pErrCode = ret ? 0 :  ERR_AU;

	return ret;
}

void AU_Initialize(AU* pVal)
{
	(void)pVal;


	(*(pVal)) = 3UL;
}

flag AU_ACN_Encode(const AU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? AU_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (*(pVal)), 3, 74);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag AU_ACN_Decode(AU* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, pVal, 3, 74);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_AU;

    return ret && AU_IsConstraintValid(pVal, pErrCode);
}


flag AB_Equal(const AB* pVal1, const AB* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag AB_IsConstraintValid(const AB* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void AB_Initialize(AB* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag AB_ACN_Encode(const AB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? AB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeUnConstraintWholeNumber(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag AB_ACN_Decode(AB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeUnConstraintWholeNumber(pBitStrm, pVal);   
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_AB;                               

    return ret && AB_IsConstraintValid(pVal, pErrCode);
}


flag Ints_Equal(const Ints* pVal1, const Ints* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->i_a == pVal2->i_a);

    if (ret) {
        ret = (pVal1->i_b == pVal2->i_b);

        if (ret) {
            ret = (pVal1->i_c == pVal2->i_c);

            if (ret) {
                ret = (pVal1->i_d == pVal2->i_d);

                if (ret) {
                    ret = (pVal1->i_g == pVal2->i_g);

                    if (ret) {
                        ret = (pVal1->i_i == pVal2->i_i);

                        if (ret) {
                            ret = (pVal1->i_j == pVal2->i_j);

                            if (ret) {
                                ret = (pVal1->i_o == pVal2->i_o);

                                if (ret) {
                                    ret = (pVal1->i_p == pVal2->i_p);

                                    if (ret) {
                                        ret = (pVal1->i_q == pVal2->i_q);

                                        if (ret) {
                                            ret = (pVal1->i_t == pVal2->i_t);

                                            if (ret) {
                                                ret = (pVal1->i_u == pVal2->i_u);

                                            }

                                        }

                                    }

                                }

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag Ints_IsConstraintValid(const Ints* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = P5_IsConstraintValid((&(pVal->i_a)), pErrCode);
    if (ret) {
        ret = P16L_IsConstraintValid((&(pVal->i_b)), pErrCode);
        if (ret) {
            ret = T16_IsConstraintValid((&(pVal->i_c)), pErrCode);
            if (ret) {
                ret = T32L_IsConstraintValid((&(pVal->i_d)), pErrCode);
                if (ret) {
                    ret = Bcd5_IsConstraintValid((&(pVal->i_g)), pErrCode);
                    if (ret) {
                        ret = As6_IsConstraintValid((&(pVal->i_i)), pErrCode);
                        if (ret) {
                            ret = AsS_IsConstraintValid((&(pVal->i_j)), pErrCode);
                            if (ret) {
                                ret = AB_IsConstraintValid((&(pVal->i_o)), pErrCode);
                                if (ret) {
                                    ret = P32_IsConstraintValid((&(pVal->i_p)), pErrCode);
                                    if (ret) {
                                        ret = T8_IsConstraintValid((&(pVal->i_q)), pErrCode);
                                        if (ret) {
                                            ret = P32L_IsConstraintValid((&(pVal->i_t)), pErrCode);
                                            if (ret) {
                                                ret = T20_IsConstraintValid((&(pVal->i_u)), pErrCode);
                                            }   /*COVERAGE_IGNORE*/
                                        }   /*COVERAGE_IGNORE*/
                                    }   /*COVERAGE_IGNORE*/
                                }   /*COVERAGE_IGNORE*/
                            }   /*COVERAGE_IGNORE*/
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Ints_Initialize(Ints* pVal)
{
	(void)pVal;


	/*set i_a */
	P5_Initialize((&(pVal->i_a)));
	/*set i_b */
	P16L_Initialize((&(pVal->i_b)));
	/*set i_c */
	T16_Initialize((&(pVal->i_c)));
	/*set i_d */
	T32L_Initialize((&(pVal->i_d)));
	/*set i_g */
	Bcd5_Initialize((&(pVal->i_g)));
	/*set i_i */
	As6_Initialize((&(pVal->i_i)));
	/*set i_j */
	AsS_Initialize((&(pVal->i_j)));
	/*set i_o */
	AB_Initialize((&(pVal->i_o)));
	/*set i_p */
	P32_Initialize((&(pVal->i_p)));
	/*set i_q */
	T8_Initialize((&(pVal->i_q)));
	/*set i_t */
	P32L_Initialize((&(pVal->i_t)));
	/*set i_u */
	T20_Initialize((&(pVal->i_u)));
}

flag Ints_ACN_Encode(const Ints* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Ints_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode i_a */
	    ret = P5_ACN_Encode((&(pVal->i_a)), pBitStrm, pErrCode, FALSE);
	    if (ret) {
	        /*Encode i_b */
	        ret = P16L_ACN_Encode((&(pVal->i_b)), pBitStrm, pErrCode, FALSE);
	        if (ret) {
	            /*Encode i_c */
	            ret = T16_ACN_Encode((&(pVal->i_c)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode i_d */
	                ret = T32L_ACN_Encode((&(pVal->i_d)), pBitStrm, pErrCode, FALSE);
	                if (ret) {
	                    /*Encode i_g */
	                    ret = Bcd5_ACN_Encode((&(pVal->i_g)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode i_i */
	                        ret = As6_ACN_Encode((&(pVal->i_i)), pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode i_j */
	                            ret = AsS_ACN_Encode((&(pVal->i_j)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode i_o */
	                                ret = AB_ACN_Encode((&(pVal->i_o)), pBitStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    /*Encode i_p */
	                                    ret = P32_ACN_Encode((&(pVal->i_p)), pBitStrm, pErrCode, FALSE);
	                                    if (ret) {
	                                        /*Encode i_q */
	                                        ret = T8_ACN_Encode((&(pVal->i_q)), pBitStrm, pErrCode, FALSE);
	                                        if (ret) {
	                                            /*Encode i_t */
	                                            ret = P32L_ACN_Encode((&(pVal->i_t)), pBitStrm, pErrCode, FALSE);
	                                            if (ret) {
	                                                /*Encode i_u */
	                                                ret = T20_ACN_Encode((&(pVal->i_u)), pBitStrm, pErrCode, FALSE);
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Ints_ACN_Decode(Ints* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode i_a */
	ret = P5_ACN_Decode((&(pVal->i_a)), pBitStrm, pErrCode);
	if (ret) {
	    /*Decode i_b */
	    ret = P16L_ACN_Decode((&(pVal->i_b)), pBitStrm, pErrCode);
	    if (ret) {
	        /*Decode i_c */
	        ret = T16_ACN_Decode((&(pVal->i_c)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode i_d */
	            ret = T32L_ACN_Decode((&(pVal->i_d)), pBitStrm, pErrCode);
	            if (ret) {
	                /*Decode i_g */
	                ret = Bcd5_ACN_Decode((&(pVal->i_g)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode i_i */
	                    ret = As6_ACN_Decode((&(pVal->i_i)), pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode i_j */
	                        ret = AsS_ACN_Decode((&(pVal->i_j)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode i_o */
	                            ret = AB_ACN_Decode((&(pVal->i_o)), pBitStrm, pErrCode);
	                            if (ret) {
	                                /*Decode i_p */
	                                ret = P32_ACN_Decode((&(pVal->i_p)), pBitStrm, pErrCode);
	                                if (ret) {
	                                    /*Decode i_q */
	                                    ret = T8_ACN_Decode((&(pVal->i_q)), pBitStrm, pErrCode);
	                                    if (ret) {
	                                        /*Decode i_t */
	                                        ret = P32L_ACN_Decode((&(pVal->i_t)), pBitStrm, pErrCode);
	                                        if (ret) {
	                                            /*Decode i_u */
	                                            ret = T20_ACN_Decode((&(pVal->i_u)), pBitStrm, pErrCode);
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && Ints_IsConstraintValid(pVal, pErrCode);
}


flag R32_Equal(const R32* pVal1, const R32* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag R32_IsConstraintValid(const R32* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void R32_Initialize(R32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag R32_ACN_Encode(const R32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? R32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Real_IEEE754_32_big_endian(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag R32_ACN_Decode(R32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Real_IEEE754_32_big_endian(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_R32;

    return ret && R32_IsConstraintValid(pVal, pErrCode);
}


flag R64_Equal(const R64* pVal1, const R64* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag R64_IsConstraintValid(const R64* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void R64_Initialize(R64* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag R64_ACN_Encode(const R64* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? R64_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Real_IEEE754_64_big_endian(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag R64_ACN_Decode(R64* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Real_IEEE754_64_big_endian(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_R64;

    return ret && R64_IsConstraintValid(pVal, pErrCode);
}


flag R64L_Equal(const R64L* pVal1, const R64L* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag R64L_IsConstraintValid(const R64L* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void R64L_Initialize(R64L* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag R64L_ACN_Encode(const R64L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? R64L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Real_IEEE754_64_little_endian(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag R64L_ACN_Decode(R64L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Real_IEEE754_64_little_endian(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_R64L;

    return ret && R64L_IsConstraintValid(pVal, pErrCode);
}


flag R32L_Equal(const R32L* pVal1, const R32L* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag R32L_IsConstraintValid(const R32L* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void R32L_Initialize(R32L* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag R32L_ACN_Encode(const R32L* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? R32L_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_Real_IEEE754_32_little_endian(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag R32L_ACN_Decode(R32L* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_Real_IEEE754_32_little_endian(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_R32L;

    return ret && R32L_IsConstraintValid(pVal, pErrCode);
}


flag RU_Equal(const RU* pVal1, const RU* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag RU_IsConstraintValid(const RU* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void RU_Initialize(RU* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag RU_ACN_Encode(const RU* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? RU_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeReal(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag RU_ACN_Decode(RU* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeReal(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_RU;

    return ret && RU_IsConstraintValid(pVal, pErrCode);
}


flag B1_Equal(const B1* pVal1, const B1* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag B1_IsConstraintValid(const B1* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void B1_Initialize(B1* pVal)
{
	(void)pVal;


	(*(pVal)) = FALSE;
}

flag B1_ACN_Encode(const B1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? B1_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,(*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag B1_ACN_Decode(B1* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_ReadBit(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_B1;

    return ret && B1_IsConstraintValid(pVal, pErrCode);
}


flag BT_Equal(const BT* pVal1, const BT* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag BT_IsConstraintValid(const BT* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void BT_Initialize(BT* pVal)
{
	(void)pVal;


	(*(pVal)) = FALSE;
}

flag BT_ACN_Encode(const BT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? BT_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    {
	    	static byte true_data[] = {0xB0};
	    	static byte false_data[] = {0x4F};
	        byte* tmp = (*(pVal)) ? true_data : false_data;
	        BitStream_AppendBits(pBitStrm, tmp, 4);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BT_ACN_Decode(BT* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	{
		static byte tmp[] = {0xB0};
		ret = BitStream_ReadBitPattern(pBitStrm, tmp, 4, pVal);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_BT;
	}

    return ret && BT_IsConstraintValid(pVal, pErrCode);
}


flag CnQ_Equal(const CnQ* pVal1, const CnQ* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->a == pVal2->a);

    if (ret) {
        ret = (pVal1->b == pVal2->b);

        if (ret) {
            ret = (pVal1->exist.c == pVal2->exist.c);
            if (ret && pVal1->exist.c) {
            	ret = (pVal1->c == pVal2->c);
            }

        }

    }

	return ret;

}

flag CnQ_IsConstraintValid(const CnQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = P5_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        ret = BT_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            if (pVal->exist.c) {
            	ret = P32_IsConstraintValid((&(pVal->c)), pErrCode);
            }
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnQ_Initialize(CnQ* pVal)
{
	(void)pVal;


	/*set a */
	P5_Initialize((&(pVal->a)));
	/*set b */
	BT_Initialize((&(pVal->b)));
	/*set c */
	pVal->exist.c = 1;
	P32_Initialize((&(pVal->c)));
}

flag CnQ_ACN_Encode(const CnQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? CnQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.c);
	    if (ret) {
	        /*Encode a */
	        ret = P5_ACN_Encode((&(pVal->a)), pBitStrm, pErrCode, FALSE);
	        if (ret) {
	            /*Encode b */
	            ret = BT_ACN_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode c */
	                if (pVal->exist.c) {
	                	ret = P32_ACN_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
	                }
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnQ_ACN_Decode(CnQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag c_exist;

	ret = BitStream_ReadBit(pBitStrm, &c_exist);
	pVal->exist.c = c_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CNQ;
	if (ret) {
	    /*Decode a */
	    ret = P5_ACN_Decode((&(pVal->a)), pBitStrm, pErrCode);
	    if (ret) {
	        /*Decode b */
	        ret = BT_ACN_Decode((&(pVal->b)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode c */
	            if (pVal->exist.c) {
	            	ret = P32_ACN_Decode((&(pVal->c)), pBitStrm, pErrCode);
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && CnQ_IsConstraintValid(pVal, pErrCode);
}


flag CnO_p_Equal(const CnO_p* pVal1, const CnO_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnO_t_Equal(const CnO_t* pVal1, const CnO_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnO_Equal(const CnO* pVal1, const CnO* pVal2)
{
	flag ret=TRUE;

    ret = CnO_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnQ_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = CnO_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag CnO_p_IsConstraintValid(const CnO_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNO_P;

	return ret;
}

flag CnO_t_IsConstraintValid(const CnO_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_CNO_T;

	return ret;
}

flag CnO_IsConstraintValid(const CnO* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnO_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnQ_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            ret = CnO_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnO_p_Initialize(CnO_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnO_t_Initialize(CnO_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnO_Initialize(CnO* pVal)
{
	(void)pVal;


	/*set p */
	CnO_p_Initialize((&(pVal->p)));
	/*set c */
	CnQ_Initialize((&(pVal->c)));
	/*set t */
	CnO_t_Initialize((&(pVal->t)));
}

flag CnO_ACN_Encode(const CnO* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? CnO_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode p */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->p, 0, 7);
	    if (ret) {
	        /*Encode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*encode to a temporary bitstream*/
	        	byte arr[CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));

	        	ret = CnQ_ACN_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	        	if (ret) {
	        		int nCount = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, nCount, 2, 6);
	        		ret = BitStream_EncodeOctetString_no_length(pBitStrm, arr, nCount);

	        	}
	        }
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnO_ACN_Decode(CnO* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode p */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->p)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CNO_P;
	if (ret) {
	    /*Decode c */
	    /*open new scope to declare some variables*/
	    {
	    	/*decode to a temporary bitstream*/
	    	byte arr[CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));

	    	asn1SccSint nCount;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 2, 6);
	    	if (ret) {
	    		ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, (int)nCount);
	    		bitStrm.count = (long)nCount;
	    	}

	    	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	    	if (ret) {
	    		ret = CnQ_ACN_Decode((&(pVal->c)), &bitStrm, pErrCode);
	    	}
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_CNO_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && CnO_IsConstraintValid(pVal, pErrCode);
}


flag CnB_p_Equal(const CnB_p* pVal1, const CnB_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnB_t_Equal(const CnB_t* pVal1, const CnB_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnB_Equal(const CnB* pVal1, const CnB* pVal2)
{
	flag ret=TRUE;

    ret = CnB_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnQ_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = CnB_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag CnB_p_IsConstraintValid(const CnB_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNB_P;

	return ret;
}

flag CnB_t_IsConstraintValid(const CnB_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_CNB_T;

	return ret;
}

flag CnB_IsConstraintValid(const CnB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnB_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnQ_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            ret = CnB_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnB_p_Initialize(CnB_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnB_t_Initialize(CnB_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnB_Initialize(CnB* pVal)
{
	(void)pVal;


	/*set p */
	CnB_p_Initialize((&(pVal->p)));
	/*set c */
	CnQ_Initialize((&(pVal->c)));
	/*set t */
	CnB_t_Initialize((&(pVal->t)));
}

flag CnB_ACN_Encode(const CnB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? CnB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode p */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->p, 0, 7);
	    if (ret) {
	        /*Encode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*encode to a temporary bitstream*/
	        	byte arr[CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));

	        	ret = CnQ_ACN_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	        	if (ret) {
	        		int nCount = bitStrm.currentByte*8 + bitStrm.currentBit;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, nCount, 10, 42);
	        		BitStream_AppendBits(pBitStrm, arr, nCount);



	        	}
	        }
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->t, 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnB_ACN_Decode(CnB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode p */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->p)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CNB_P;
	if (ret) {
	    /*Decode c */
	    /*open new scope to declare some variables*/
	    {
	    	/*decode to a temporary bitstream*/
	    	byte arr[CnQ_REQUIRED_BYTES_FOR_ACN_ENCODING];
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));

	    	asn1SccSint nCount;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 10, 42);
	    	if (ret) {
	    		ret = BitStream_ReadBits(pBitStrm, arr, (int)nCount);
	    		bitStrm.count = ((long)nCount + 7) / 8;
	    	}

	    	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	    	if (ret) {
	    		ret = CnQ_ACN_Decode((&(pVal->c)), &bitStrm, pErrCode);
	    	}
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_CNB_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && CnB_IsConstraintValid(pVal, pErrCode);
}


flag CnN_p_Equal(const CnN_p* pVal1, const CnN_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnN_d_Equal(const CnN_d* pVal1, const CnN_d* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = CnB_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag CnN_Equal(const CnN* pVal1, const CnN* pVal2)
{
	flag ret=TRUE;

    ret = CnN_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnO_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = CnN_d_Equal((&(pVal1->d)), (&(pVal2->d)));

        }

    }

	return ret;

}

flag CnN_p_IsConstraintValid(const CnN_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNN_P;

	return ret;
}

flag CnN_d_IsConstraintValid(const CnN_d* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 3);
    *pErrCode = ret ? 0 :  ERR_CNN_D;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = CnB_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag CnN_IsConstraintValid(const CnN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnN_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnO_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            ret = CnN_d_IsConstraintValid((&(pVal->d)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnN_p_Initialize(CnN_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnN_d_Initialize(CnN_d* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    CnB_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void CnN_Initialize(CnN* pVal)
{
	(void)pVal;


	/*set p */
	CnN_p_Initialize((&(pVal->p)));
	/*set c */
	CnO_Initialize((&(pVal->c)));
	/*set d */
	CnN_d_Initialize((&(pVal->d)));
}

flag CnN_ACN_Encode(const CnN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? CnN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode p */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->p, 0, 7);
	    if (ret) {
	        /*Encode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*encode to a temporary bitstream*/
	        	byte arr[CnO_REQUIRED_BYTES_FOR_ACN_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));

	        	ret = CnO_ACN_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	        	if (ret) {
	        		int nCount = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, nCount, 4, 8);
	        		ret = BitStream_EncodeOctetString_no_length(pBitStrm, arr, nCount);

	        	}
	        }
	        if (ret) {
	            /*Encode d */
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->d.nCount, 0, 3);
	            for(i1=0; (i1 < (int)pVal->d.nCount) && ret; i1++)
	            {
	            	ret = CnB_ACN_Encode((&(pVal->d.arr[i1])), pBitStrm, pErrCode, FALSE);
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnN_ACN_Decode(CnN* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	/*Decode p */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->p)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CNN_P;
	if (ret) {
	    /*Decode c */
	    /*open new scope to declare some variables*/
	    {
	    	/*decode to a temporary bitstream*/
	    	byte arr[CnO_REQUIRED_BYTES_FOR_ACN_ENCODING];
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));

	    	asn1SccSint nCount;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 4, 8);
	    	if (ret) {
	    		ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, (int)nCount);
	    		bitStrm.count = (long)nCount;
	    	}

	    	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	    	if (ret) {
	    		ret = CnO_ACN_Decode((&(pVal->c)), &bitStrm, pErrCode);
	    	}
	    }
	    if (ret) {
	        /*Decode d */
	        ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_CNN_D;
	        pVal->d.nCount = (long)nCount;
	        for(i1=0; (i1 < (int)pVal->d.nCount) && ret; i1++)
	        {
	        	ret = CnB_ACN_Decode((&(pVal->d.arr[i1])), pBitStrm, pErrCode);
	        }
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && CnN_IsConstraintValid(pVal, pErrCode);
}


flag BF_Equal(const BF* pVal1, const BF* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag BF_IsConstraintValid(const BF* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void BF_Initialize(BF* pVal)
{
	(void)pVal;


	(*(pVal)) = FALSE;
}

flag BF_ACN_Encode(const BF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? BF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    {
	    	static byte true_data[] = {0xAA,0xFF};
	    	static byte false_data[] = {0x55,0x00};
	        byte* tmp = (*(pVal)) ? true_data : false_data;
	        BitStream_AppendBits(pBitStrm, tmp, 9);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BF_ACN_Decode(BF* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	{
		static byte tmp[] = {0x55,0x00};
		ret = BitStream_ReadBitPattern(pBitStrm, tmp, 9, pVal);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_BF;
		(*(pVal)) = !(*(pVal));
	}

    return ret && BF_IsConstraintValid(pVal, pErrCode);
}


flag BTF_Equal(const BTF* pVal1, const BTF* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag BTF_IsConstraintValid(const BTF* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void BTF_Initialize(BTF* pVal)
{
	(void)pVal;


	(*(pVal)) = FALSE;
}

flag BTF_ACN_Encode(const BTF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? BTF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    {
	        static byte true_data[] = {0xCC,0xE0};
	        static byte false_data[] = {0x00,0x20};
	        byte* tmp = (*(pVal)) ? true_data : false_data;
	        BitStream_AppendBits(pBitStrm, tmp, 11);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BTF_ACN_Decode(BTF* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	{
	    static byte true_data[] = {0xCC,0xE0};
	    static byte false_data[] = {0x00,0x20};
	    ret = BitStream_DecodeTrueFalseBoolean(pBitStrm, true_data, false_data, 11, pVal);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_BTF;
	}

    return ret && BTF_IsConstraintValid(pVal, pErrCode);
}


flag N0_Equal(const N0* pVal1, const N0* pVal2)
{
	(void)pVal1;
	(void)pVal2;
	return TRUE;

}

void N0_Initialize(N0* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}

flag N0_ACN_Encode(const N0* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)pBitStrm;

    *pErrCode = 0;
    (void)bCheckConstraints;



    return ret;
}

flag N0_ACN_Decode(N0* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)pBitStrm;
	*pErrCode = 0;



    return ret;
}


flag NP_Equal(const NP* pVal1, const NP* pVal2)
{
	(void)pVal1;
	(void)pVal2;
	return TRUE;

}

void NP_Initialize(NP* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}

flag NP_ACN_Encode(const NP* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;

    *pErrCode = 0;
    (void)bCheckConstraints;

    {
    	static byte tmp[] = {0xAE,0x28};
    	BitStream_AppendBits(pBitStrm, tmp, 13);
    }


    return ret;
}

flag NP_ACN_Decode(NP* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	*pErrCode = 0;


	{
		static byte tmp[] = {0xAE,0x28};
	    flag bDecodingPatternMatches;
		ret = BitStream_ReadBitPattern(pBitStrm, tmp, 13, &bDecodingPatternMatches);
	    ret = ret && bDecodingPatternMatches;
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_NP;
	}


    return ret;
}


flag En_Equal(const En* pVal1, const En* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag En_IsConstraintValid(const En* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == e1)) || (((*(pVal)) == e2)))) || (((*(pVal)) == e3)));
    *pErrCode = ret ? 0 :  ERR_EN;

	return ret;
}

void En_Initialize(En* pVal)
{
	(void)pVal;


	(*(pVal)) = e1;
}

flag En_ACN_Encode(const En* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? En_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case e1:
	            intVal_pVal = 0UL;
	            break;
	        case e2:
	            intVal_pVal = 1UL;
	            break;
	        case e3:
	            intVal_pVal = 2UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_EN;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, intVal_pVal, 0, 2);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag En_ACN_Decode(En* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(intVal_pVal)), 0, 2);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_EN;
	if (ret) {
	    switch (intVal_pVal) {
	        case 0:
	            (*(pVal)) = e1;
	            break;
	        case 1:
	            (*(pVal)) = e2;
	            break;
	        case 2:
	            (*(pVal)) = e3;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_EN;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && En_IsConstraintValid(pVal, pErrCode);
}


flag EnV_Equal(const EnV* pVal1, const EnV* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag EnV_IsConstraintValid(const EnV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == v1)) || (((*(pVal)) == v2)))) || (((*(pVal)) == v3)));
    *pErrCode = ret ? 0 :  ERR_ENV;

	return ret;
}

void EnV_Initialize(EnV* pVal)
{
	(void)pVal;


	(*(pVal)) = v1;
}

flag EnV_ACN_Encode(const EnV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? EnV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case v1:
	            intVal_pVal = 3UL;
	            break;
	        case v2:
	            intVal_pVal = 77UL;
	            break;
	        case v3:
	            intVal_pVal = 250UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_ENV;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, intVal_pVal);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag EnV_ACN_Decode(EnV* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(intVal_pVal)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ENV;
	if (ret) {
	    switch (intVal_pVal) {
	        case 3:
	            (*(pVal)) = v1;
	            break;
	        case 77:
	            (*(pVal)) = v2;
	            break;
	        case 250:
	            (*(pVal)) = v3;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_ENV;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && EnV_IsConstraintValid(pVal, pErrCode);
}


flag ASoE_Equal(const ASoE* pVal1, const ASoE* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag ASoE_IsConstraintValid(const ASoE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 4));
    *pErrCode = ret ? 0 :  ERR_ASOE;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = EnV_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void ASoE_Initialize(ASoE* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    pVal->arr[i1] = v1;
	    i1 = i1 + 1;
	}
	pVal->nCount = 1;
}

flag ASoE_ACN_Encode(const ASoE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? ASoE_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 1, 4);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	ret = EnV_ACN_Encode((&(pVal->arr[i1])), pBitStrm, pErrCode, FALSE);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag ASoE_ACN_Decode(ASoE* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 1, 4);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ASOE;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = EnV_ACN_Decode((&(pVal->arr[i1])), pBitStrm, pErrCode);
	}

    return ret && ASoE_IsConstraintValid(pVal, pErrCode);
}


flag EnW_Equal(const EnW* pVal1, const EnW* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag EnW_IsConstraintValid(const EnW* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == ew_a)) || (((*(pVal)) == ew_b)))) || (((*(pVal)) == ew_c)));
    *pErrCode = ret ? 0 :  ERR_ENW;

	return ret;
}

void EnW_Initialize(EnW* pVal)
{
	(void)pVal;


	(*(pVal)) = ew_a;
}

flag EnW_ACN_Encode(const EnW* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? EnW_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case ew_a:
	            intVal_pVal = -5LL;
	            break;
	        case ew_b:
	            intVal_pVal = 0LL;
	            break;
	        case ew_c:
	            intVal_pVal = 7000LL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_ENW;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, intVal_pVal);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag EnW_ACN_Decode(EnW* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint intVal_pVal;

	ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, (&(intVal_pVal)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ENW;
	if (ret) {
	    switch (intVal_pVal) {
	        case -5:
	            (*(pVal)) = ew_a;
	            break;
	        case 0:
	            (*(pVal)) = ew_b;
	            break;
	        case 7000:
	            (*(pVal)) = ew_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_ENW;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && EnW_IsConstraintValid(pVal, pErrCode);
}


flag EnJ_Equal(const EnJ* pVal1, const EnJ* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag EnJ_IsConstraintValid(const EnJ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((((((*(pVal)) == k1)) || (((*(pVal)) == k2)))) || (((*(pVal)) == k3)))) || (((*(pVal)) == k4)))) || (((*(pVal)) == k5)));
    *pErrCode = ret ? 0 :  ERR_ENJ;

	return ret;
}

void EnJ_Initialize(EnJ* pVal)
{
	(void)pVal;


	(*(pVal)) = k1;
}

flag EnJ_ACN_Encode(const EnJ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? EnJ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case k1:
	            intVal_pVal = 3UL;
	            break;
	        case k2:
	            intVal_pVal = 0UL;
	            break;
	        case k3:
	            intVal_pVal = 2UL;
	            break;
	        case k4:
	            intVal_pVal = 4UL;
	            break;
	        case k5:
	            intVal_pVal = 1UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_ENJ;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, intVal_pVal, 0, 4);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag EnJ_ACN_Decode(EnJ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(intVal_pVal)), 0, 4);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ENJ;
	if (ret) {
	    switch (intVal_pVal) {
	        case 3:
	            (*(pVal)) = k1;
	            break;
	        case 0:
	            (*(pVal)) = k2;
	            break;
	        case 2:
	            (*(pVal)) = k3;
	            break;
	        case 4:
	            (*(pVal)) = k4;
	            break;
	        case 1:
	            (*(pVal)) = k5;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_ENJ;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && EnJ_IsConstraintValid(pVal, pErrCode);
}


flag EnK_Equal(const EnK* pVal1, const EnK* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag EnK_IsConstraintValid(const EnK* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == l1)) || (((*(pVal)) == l2)))) || (((*(pVal)) == l3)));
    *pErrCode = ret ? 0 :  ERR_ENK;

	return ret;
}

void EnK_Initialize(EnK* pVal)
{
	(void)pVal;


	(*(pVal)) = l1;
}

flag EnK_ACN_Encode(const EnK* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccSint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? EnK_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case l1:
	            intVal_pVal = 9LL;
	            break;
	        case l2:
	            intVal_pVal = -2LL;
	            break;
	        case l3:
	            intVal_pVal = 4LL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_ENK;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_TwosComplement_ConstSize_8(pBitStrm, intVal_pVal);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag EnK_ACN_Decode(EnK* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint intVal_pVal;

	ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, (&(intVal_pVal)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ENK;
	if (ret) {
	    switch (intVal_pVal) {
	        case 9:
	            (*(pVal)) = l1;
	            break;
	        case -2:
	            (*(pVal)) = l2;
	            break;
	        case 4:
	            (*(pVal)) = l3;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_ENK;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && EnK_IsConstraintValid(pVal, pErrCode);
}


flag Oths_Equal(const Oths* pVal1, const Oths* pVal2)
{
	flag ret=TRUE;

    ret = (Asn1Real_Equal(pVal1->o_a,pVal2->o_a));

    if (ret) {
        ret = (Asn1Real_Equal(pVal1->o_b,pVal2->o_b));

        if (ret) {
            ret = (Asn1Real_Equal(pVal1->o_c,pVal2->o_c));

            if (ret) {
                ret = (Asn1Real_Equal(pVal1->o_d,pVal2->o_d));

                if (ret) {
                    ret = (pVal1->o_e == pVal2->o_e);

                    if (ret) {
                        ret = (pVal1->o_f == pVal2->o_f);

                        if (ret) {
                            ret = (pVal1->o_h == pVal2->o_h);

                            if (ret) {
                                ret = (pVal1->o_i == pVal2->o_i);

                                if (ret) {
                                    ret = (pVal1->o_j == pVal2->o_j);

                                    if (ret) {
                                        ret = (pVal1->o_k == pVal2->o_k);

                                        if (ret) {
                                            ret = (Asn1Real_Equal(pVal1->o_l,pVal2->o_l));

                                            if (ret) {
                                                ret = (pVal1->o_m == pVal2->o_m);

                                                if (ret) {
                                                    ret = (pVal1->o_n == pVal2->o_n);

                                                }

                                            }

                                        }

                                    }

                                }

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag Oths_IsConstraintValid(const Oths* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = R32_IsConstraintValid((&(pVal->o_a)), pErrCode);
    if (ret) {
        ret = R64_IsConstraintValid((&(pVal->o_b)), pErrCode);
        if (ret) {
            ret = R64L_IsConstraintValid((&(pVal->o_c)), pErrCode);
            if (ret) {
                ret = RU_IsConstraintValid((&(pVal->o_d)), pErrCode);
                if (ret) {
                    ret = BT_IsConstraintValid((&(pVal->o_e)), pErrCode);
                    if (ret) {
                        ret = BTF_IsConstraintValid((&(pVal->o_f)), pErrCode);
                        if (ret) {
                            ret = En_IsConstraintValid((&(pVal->o_h)), pErrCode);
                            if (ret) {
                                ret = EnV_IsConstraintValid((&(pVal->o_i)), pErrCode);
                                if (ret) {
                                    ret = EnW_IsConstraintValid((&(pVal->o_j)), pErrCode);
                                    if (ret) {
                                        ret = BF_IsConstraintValid((&(pVal->o_k)), pErrCode);
                                        if (ret) {
                                            ret = R32L_IsConstraintValid((&(pVal->o_l)), pErrCode);
                                            if (ret) {
                                                ret = EnJ_IsConstraintValid((&(pVal->o_m)), pErrCode);
                                                if (ret) {
                                                    ret = EnK_IsConstraintValid((&(pVal->o_n)), pErrCode);
                                                }   /*COVERAGE_IGNORE*/
                                            }   /*COVERAGE_IGNORE*/
                                        }   /*COVERAGE_IGNORE*/
                                    }   /*COVERAGE_IGNORE*/
                                }   /*COVERAGE_IGNORE*/
                            }   /*COVERAGE_IGNORE*/
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Oths_Initialize(Oths* pVal)
{
	(void)pVal;


	/*set o_a */
	R32_Initialize((&(pVal->o_a)));
	/*set o_b */
	R64_Initialize((&(pVal->o_b)));
	/*set o_c */
	R64L_Initialize((&(pVal->o_c)));
	/*set o_d */
	RU_Initialize((&(pVal->o_d)));
	/*set o_e */
	BT_Initialize((&(pVal->o_e)));
	/*set o_f */
	BTF_Initialize((&(pVal->o_f)));
	/*set o_g */
	NP_Initialize((&(pVal->o_g)));
	/*set o_h */
	En_Initialize((&(pVal->o_h)));
	/*set o_i */
	EnV_Initialize((&(pVal->o_i)));
	/*set o_j */
	EnW_Initialize((&(pVal->o_j)));
	/*set o_k */
	BF_Initialize((&(pVal->o_k)));
	/*set o_l */
	R32L_Initialize((&(pVal->o_l)));
	/*set o_m */
	EnJ_Initialize((&(pVal->o_m)));
	/*set o_n */
	EnK_Initialize((&(pVal->o_n)));
}

flag Oths_ACN_Encode(const Oths* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Oths_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode o_a */
	    ret = R32_ACN_Encode((&(pVal->o_a)), pBitStrm, pErrCode, FALSE);
	    if (ret) {
	        /*Encode o_b */
	        ret = R64_ACN_Encode((&(pVal->o_b)), pBitStrm, pErrCode, FALSE);
	        if (ret) {
	            /*Encode o_c */
	            ret = R64L_ACN_Encode((&(pVal->o_c)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode o_d */
	                ret = RU_ACN_Encode((&(pVal->o_d)), pBitStrm, pErrCode, FALSE);
	                if (ret) {
	                    /*Encode o_e */
	                    ret = BT_ACN_Encode((&(pVal->o_e)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode o_f */
	                        ret = BTF_ACN_Encode((&(pVal->o_f)), pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode o_g */
	                            ret = NP_ACN_Encode((&(pVal->o_g)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode o_h */
	                                ret = En_ACN_Encode((&(pVal->o_h)), pBitStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    /*Encode o_i */
	                                    ret = EnV_ACN_Encode((&(pVal->o_i)), pBitStrm, pErrCode, FALSE);
	                                    if (ret) {
	                                        /*Encode o_j */
	                                        ret = EnW_ACN_Encode((&(pVal->o_j)), pBitStrm, pErrCode, FALSE);
	                                        if (ret) {
	                                            /*Encode o_k */
	                                            ret = BF_ACN_Encode((&(pVal->o_k)), pBitStrm, pErrCode, FALSE);
	                                            if (ret) {
	                                                /*Encode o_l */
	                                                ret = R32L_ACN_Encode((&(pVal->o_l)), pBitStrm, pErrCode, FALSE);
	                                                if (ret) {
	                                                    /*Encode o_m */
	                                                    ret = EnJ_ACN_Encode((&(pVal->o_m)), pBitStrm, pErrCode, FALSE);
	                                                    if (ret) {
	                                                        /*Encode o_n */
	                                                        ret = EnK_ACN_Encode((&(pVal->o_n)), pBitStrm, pErrCode, FALSE);
	                                                    }   /*COVERAGE_IGNORE*/
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Oths_ACN_Decode(Oths* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode o_a */
	ret = R32_ACN_Decode((&(pVal->o_a)), pBitStrm, pErrCode);
	if (ret) {
	    /*Decode o_b */
	    ret = R64_ACN_Decode((&(pVal->o_b)), pBitStrm, pErrCode);
	    if (ret) {
	        /*Decode o_c */
	        ret = R64L_ACN_Decode((&(pVal->o_c)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode o_d */
	            ret = RU_ACN_Decode((&(pVal->o_d)), pBitStrm, pErrCode);
	            if (ret) {
	                /*Decode o_e */
	                ret = BT_ACN_Decode((&(pVal->o_e)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode o_f */
	                    ret = BTF_ACN_Decode((&(pVal->o_f)), pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode o_g */
	                        ret = NP_ACN_Decode((&(pVal->o_g)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode o_h */
	                            ret = En_ACN_Decode((&(pVal->o_h)), pBitStrm, pErrCode);
	                            if (ret) {
	                                /*Decode o_i */
	                                ret = EnV_ACN_Decode((&(pVal->o_i)), pBitStrm, pErrCode);
	                                if (ret) {
	                                    /*Decode o_j */
	                                    ret = EnW_ACN_Decode((&(pVal->o_j)), pBitStrm, pErrCode);
	                                    if (ret) {
	                                        /*Decode o_k */
	                                        ret = BF_ACN_Decode((&(pVal->o_k)), pBitStrm, pErrCode);
	                                        if (ret) {
	                                            /*Decode o_l */
	                                            ret = R32L_ACN_Decode((&(pVal->o_l)), pBitStrm, pErrCode);
	                                            if (ret) {
	                                                /*Decode o_m */
	                                                ret = EnJ_ACN_Decode((&(pVal->o_m)), pBitStrm, pErrCode);
	                                                if (ret) {
	                                                    /*Decode o_n */
	                                                    ret = EnK_ACN_Decode((&(pVal->o_n)), pBitStrm, pErrCode);
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && Oths_IsConstraintValid(pVal, pErrCode);
}


flag OFx_Equal(const OFx* pVal1, const OFx* pVal2)
{
	return memcmp(pVal1->arr, pVal2->arr, 3) ==0;

}

flag OFx_IsConstraintValid(const OFx* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void OFx_Initialize(OFx* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 3);


}

flag OFx_ACN_Encode(const OFx* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? OFx_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, 3);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag OFx_ACN_Decode(OFx* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, 3);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_OFX;

    return ret && OFx_IsConstraintValid(pVal, pErrCode);
}


flag OV_Equal(const OV* pVal1, const OV* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OV_IsConstraintValid(const OV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 30);
    *pErrCode = ret ? 0 :  ERR_OV;

	return ret;
}

void OV_Initialize(OV* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 30);
	pVal->nCount = 0;

}

flag OV_ACN_Encode(const OV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? OV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 30);
	    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag OV_ACN_Decode(OV* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 30);
	if (ret) {
	    pVal->nCount = (long)nCount;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
	}
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_OV;

    return ret && OV_IsConstraintValid(pVal, pErrCode);
}


flag DPr_e_x_Equal(const DPr_e_x* pVal1, const DPr_e_x* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DPr_Equal(const DPr* pVal1, const DPr* pVal2)
{
	flag ret=TRUE;

    ret = DPr_e_x_Equal((&(pVal1->e_x)), (&(pVal2->e_x)));

    if (ret) {
        ret = (pVal1->exist.e_a == pVal2->exist.e_a);
        if (ret && pVal1->exist.e_a) {
        	ret = (pVal1->e_a == pVal2->e_a);
        }

        if (ret) {
            ret = (pVal1->exist.e_b == pVal2->exist.e_b);
            if (ret && pVal1->exist.e_b) {
            	ret = OV_Equal((&(pVal1->e_b)), (&(pVal2->e_b)));
            }

            if (ret) {
                ret = (pVal1->exist.e_c == pVal2->exist.e_c);
                if (ret && pVal1->exist.e_c) {
                	ret = (pVal1->e_c == pVal2->e_c);
                }

                if (ret) {
                    ret = (pVal1->exist.e_d == pVal2->exist.e_d);
                    if (ret && pVal1->exist.e_d) {
                    	ret = (pVal1->e_d == pVal2->e_d);
                    }

                }

            }

        }

    }

	return ret;

}

flag DPr_e_x_IsConstraintValid(const DPr_e_x* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_DPR_E_X;

	return ret;
}

flag DPr_IsConstraintValid(const DPr* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DPr_e_x_IsConstraintValid((&(pVal->e_x)), pErrCode);
    if (ret) {
        if (pVal->exist.e_a) {
        	ret = P16_IsConstraintValid((&(pVal->e_a)), pErrCode);
        }
        if (ret) {
            if (pVal->exist.e_b) {
            	ret = OV_IsConstraintValid((&(pVal->e_b)), pErrCode);
            }
            if (ret) {
                if (pVal->exist.e_c) {
                	ret = T5_IsConstraintValid((&(pVal->e_c)), pErrCode);
                }
                if (ret) {
                    if (pVal->exist.e_d) {
                    	ret = P8_IsConstraintValid((&(pVal->e_d)), pErrCode);
                    }
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DPr_e_x_Initialize(DPr_e_x* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DPr_Initialize(DPr* pVal)
{
	(void)pVal;


	/*set e_x */
	DPr_e_x_Initialize((&(pVal->e_x)));
	/*set e_a */
	pVal->exist.e_a = 1;
	P16_Initialize((&(pVal->e_a)));
	/*set e_b */
	pVal->exist.e_b = 1;
	OV_Initialize((&(pVal->e_b)));
	/*set e_c */
	pVal->exist.e_c = 1;
	T5_Initialize((&(pVal->e_c)));
	/*set e_d */
	pVal->exist.e_d = 1;
	pVal->e_d = 9UL;
}

flag DPr_ACN_Encode(const DPr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	flag DPr_has_a;
	flag DPr_has_a_is_initialized=FALSE;
	flag DPr_has_b;
	flag DPr_has_b_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DPr_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.e_c);
	    if (ret) {
	        BitStream_AppendBit(pBitStrm,pVal->exist.e_d);
	        if (ret) {
	            DPr_has_a_is_initialized = TRUE;
	            DPr_has_a = (pVal->exist.e_a == 1);
	            if (ret) {
	                /*Encode DPr_has_a */
	                if (DPr_has_a_is_initialized) {
	                    ret = TRUE;
	                    BitStream_AppendBit(pBitStrm,DPr_has_a);
	                } else {
	                    *pErrCode = ERR_ACN_ENCODE_DPR_HAS_A_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                    ret = FALSE;                    /*COVERAGE_IGNORE*/
	                }
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode e_x */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->e_x, 0, 3);
	                if (ret) {
	                    /*Encode e_a */
	                    if (pVal->exist.e_a) {
	                    	Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, pVal->e_a);
	                    }
	                    if (ret) {
	                        DPr_has_b_is_initialized = TRUE;
	                        DPr_has_b = (pVal->exist.e_b == 1);
	                        if (ret) {
	                            /*Encode DPr_has_b */
	                            if (DPr_has_b_is_initialized) {
	                                ret = TRUE;
	                                {
	                                    static byte true_data[] = {0xF0};
	                                    static byte false_data[] = {0x00};
	                                    byte* tmp = DPr_has_b ? true_data : false_data;
	                                    BitStream_AppendBits(pBitStrm, tmp, 4);
	                                }
	                            } else {
	                                *pErrCode = ERR_ACN_ENCODE_DPR_HAS_B_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                                ret = FALSE;                    /*COVERAGE_IGNORE*/
	                            }
	                        }   /*COVERAGE_IGNORE*/
	                        if (ret) {
	                            /*Encode e_b */
	                            if (pVal->exist.e_b) {
	                            	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->e_b.nCount, 0, 30);
	                            	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->e_b.arr, pVal->e_b.nCount);
	                            }
	                            if (ret) {
	                                /*Encode e_c */
	                                if (pVal->exist.e_c) {
	                                	ret = T5_ACN_Encode((&(pVal->e_c)), pBitStrm, pErrCode, FALSE);
	                                }
	                                if (ret) {
	                                    /*Encode e_d */
	                                    if (pVal->exist.e_d) {
	                                    	ret = P8_ACN_Encode((&(pVal->e_d)), pBitStrm, pErrCode, FALSE);
	                                    }
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DPr_ACN_Decode(DPr* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag DPr_has_a;
	flag DPr_has_b;
	asn1SccSint nCount;
	flag e_c_exist;
	flag e_d_exist;

	ret = BitStream_ReadBit(pBitStrm, &e_c_exist);
	pVal->exist.e_c = e_c_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPR;
	if (ret) {
	    ret = BitStream_ReadBit(pBitStrm, &e_d_exist);
	    pVal->exist.e_d = e_d_exist == 0 ? 0 : 1;
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPR;
	    if (ret) {
	        /*Decode DPr_has_a */
	        ret = BitStream_ReadBit(pBitStrm, (&(DPr_has_a)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPR_HAS_A;
	        if (ret) {
	            /*Decode e_x */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->e_x)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPR_E_X;
	            if (ret) {
	                pVal->exist.e_a = DPr_has_a ? 1 : 0;
	                /*Decode e_a */
	                if (pVal->exist.e_a) {
	                	ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(pVal->e_a)));
	                	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPR_E_A;
	                }
	                if (ret) {
	                    /*Decode DPr_has_b */
	                    {
	                        static byte true_data[] = {0xF0};
	                        static byte false_data[] = {0x00};
	                        ret = BitStream_DecodeTrueFalseBoolean(pBitStrm, true_data, false_data, 4, (&(DPr_has_b)));
	                        *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPR_HAS_B;
	                    }
	                    if (ret) {
	                        pVal->exist.e_b = DPr_has_b ? 1 : 0;
	                        /*Decode e_b */
	                        if (pVal->exist.e_b) {
	                        	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 30);
	                        	if (ret) {
	                        	    pVal->e_b.nCount = (long)nCount;
	                        	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->e_b.arr, pVal->e_b.nCount);
	                        	}
	                        	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPR_E_B;
	                        }
	                        if (ret) {
	                            /*Decode e_c */
	                            if (pVal->exist.e_c) {
	                            	ret = T5_ACN_Decode((&(pVal->e_c)), pBitStrm, pErrCode);
	                            }
	                            if (ret) {
	                                /*Decode e_d */
	                                if (pVal->exist.e_d) {
	                                	ret = P8_ACN_Decode((&(pVal->e_d)), pBitStrm, pErrCode);
	                                } else {
	                                    pVal->e_d = 9UL;
	                                }
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DPr_IsConstraintValid(pVal, pErrCode);
}


flag DPwC_Equal(const DPwC* pVal1, const DPwC* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case w1_PRESENT:
    		ret = (pVal1->u.w1 == pVal2->u.w1);
    		break;
    	case w2_PRESENT:
    		ret = (pVal1->u.w2 == pVal2->u.w2);
    		break;
    	case w3_PRESENT:
    		ret = OV_Equal((&(pVal1->u.w3)), (&(pVal2->u.w3)));
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag DPwC_IsConstraintValid(const DPwC* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case w1_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.w1)), pErrCode);
            break;          
        case w2_PRESENT : 
            ret = BT_IsConstraintValid((&(pVal->u.w2)), pErrCode);
            break;          
        case w3_PRESENT : 
            ret = OV_IsConstraintValid((&(pVal->u.w3)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_DPWC;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void DPwC_Initialize(DPwC* pVal)
{
	(void)pVal;


	pVal->kind = w1_PRESENT;
	pVal->u.w1 = 0UL;
}


flag DPw_Equal(const DPw* pVal1, const DPw* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->w_m == pVal2->w_m);

    if (ret) {
        ret = DPwC_Equal((&(pVal1->w_c)), (&(pVal2->w_c)));

    }

	return ret;

}

flag DPw_IsConstraintValid(const DPw* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DPwC_IsConstraintValid((&(pVal->w_c)), pErrCode);

	return ret;
}

void DPw_Initialize(DPw* pVal)
{
	(void)pVal;


	/*set w_m */
	pVal->w_m = FALSE;
	/*set w_c */
	DPwC_Initialize((&(pVal->w_c)));
}

flag DPw_ACN_Encode(const DPw* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint DPw_tag1;
	flag DPw_tag1_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? DPw_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch (pVal->w_c.kind) {
	        case w1_PRESENT:
	        		DPw_tag1_is_initialized = TRUE;
	        		DPw_tag1 = 10;
	            break;
	        case w2_PRESENT:
	        		DPw_tag1_is_initialized = TRUE;
	        		DPw_tag1 = 20;
	            break;
	        case w3_PRESENT:
	        		DPw_tag1_is_initialized = TRUE;
	        		DPw_tag1 = 30;
	            break;
	        default:
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	        /*Encode DPw_tag1 */
	        if (DPw_tag1_is_initialized) {
	            ret = TRUE;
	            Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, DPw_tag1);
	        } else {
	            *pErrCode = ERR_ACN_ENCODE_DPW_TAG1_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode w_m */
	        BitStream_AppendBit(pBitStrm,pVal->w_m);
	        if (ret) {
	            /*Encode w_c */
	            switch(pVal->w_c.kind)
	            {
	            case w1_PRESENT:
	            	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->w_c.u.w1);
	            	break;
	            case w2_PRESENT:
	            	{
	            		static byte true_data[] = {0xB0};
	            		static byte false_data[] = {0x4F};
	            	    byte* tmp = pVal->w_c.u.w2 ? true_data : false_data;
	            	    BitStream_AppendBits(pBitStrm, tmp, 4);
	            	}
	            	break;
	            case w3_PRESENT:
	            	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->w_c.u.w3.nCount, 0, 30);
	            	ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->w_c.u.w3.arr, pVal->w_c.u.w3.nCount);
	            	break;
	            default:
	                *pErrCode = ERR_ACN_ENCODE_DPW_W_C;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DPw_ACN_Decode(DPw* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint DPw_tag1;
	asn1SccSint nCount;

	/*Decode DPw_tag1 */
	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(DPw_tag1)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DPW_TAG1;
	if (ret) {
	    /*Decode w_m */
	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->w_m)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPW_W_M;
	    if (ret) {
	        /*Decode w_c */
	        *pErrCode = 0;
	        if ((DPw_tag1 == 10)) {
	            pVal->w_c.kind = w1_PRESENT;
	            ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->w_c.u.w1)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPW_W_C_W1;
	        }
	        else if ((DPw_tag1 == 20)) {
	            pVal->w_c.kind = w2_PRESENT;
	            {
	            	static byte tmp[] = {0xB0};
	            	ret = BitStream_ReadBitPattern(pBitStrm, tmp, 4, (&(pVal->w_c.u.w2)));
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPW_W_C_W2;
	            }
	        }
	        else if ((DPw_tag1 == 30)) {
	            pVal->w_c.kind = w3_PRESENT;
	            ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 30);
	            if (ret) {
	                pVal->w_c.u.w3.nCount = (long)nCount;
	                ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->w_c.u.w3.arr, pVal->w_c.u.w3.nCount);
	            }
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_DPW_W_C_W3;
	        }
	        else {
	            *pErrCode = ERR_ACN_DECODE_DPW_W_C;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DPw_IsConstraintValid(pVal, pErrCode);
}


flag BF9_Equal(const BF9* pVal1, const BF9* pVal2)
{
	return     (memcmp(pVal1->arr, pVal2->arr, 9/8) == 0) &&
    ((9 % 8) >0 ? (pVal1->arr[9/8]>>(8-9 % 8) == pVal2->arr[9/8]>>(8-9 % 8) ) : TRUE)
;

}

flag BF9_IsConstraintValid(const BF9* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void BF9_Initialize(BF9* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 16/8);


}

flag BF9_ACN_Encode(const BF9* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? BF9_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBits(pBitStrm, pVal->arr, 9);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BF9_ACN_Decode(BF9* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_ReadBits(pBitStrm, pVal->arr, 9);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_BF9;

    return ret && BF9_IsConstraintValid(pVal, pErrCode);
}


flag BV_Equal(const BV* pVal1, const BV* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BV_IsConstraintValid(const BV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 40));
    *pErrCode = ret ? 0 :  ERR_BV;

	return ret;
}

void BV_Initialize(BV* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 40/8);

	pVal->nCount = 1;
}

flag BV_ACN_Encode(const BV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? BV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 1, 40);
	    BitStream_AppendBits(pBitStrm, pVal->arr, pVal->nCount);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BV_ACN_Decode(BV* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 1, 40);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_BV;
	if (ret) {
		pVal->nCount = (long)nCount;
		ret = BitStream_ReadBits(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_BV;
	}

    return ret && BV_IsConstraintValid(pVal, pErrCode);
}


flag SI_Equal(const SI pVal1, const SI pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag SI_IsConstraintValid(const SI pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 12);
    *pErrCode = ret ? 0 :  ERR_SI;

	return ret;
}

void SI_Initialize(SI pVal)
{
	(void)pVal;


	memset(pVal, ' ', 12);
	pVal[12] = 0;

}

flag SI_ACN_Encode(const SI pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
	asn1SccSint nStringLength;
    *pErrCode = 0;
	ret = bCheckConstraints ? SI_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    nStringLength = strlen(pVal);
	    /*ret = nStringLength >= 0 && nStringLength <= 12;*/
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, 0, 12);
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal[i1], 0, 127);
	    }

    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SI_ACN_Decode(SI pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nStringLength;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, 0, 12);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_SI;
	if (ret) {
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	asn1SccSint charValue=0;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charValue, 0, 127);
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_SI;
	    	pVal[i1] = (char)charValue;
	    }
	    pVal[nStringLength] = 0x0;
	}

    return ret && SI_IsConstraintValid(pVal, pErrCode);
}


flag SA_Equal(const SA pVal1, const SA pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag SA_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((('A' <= str[i]) && (str[i] <= 'P')));
        i = i + 1;
    }
    return ret;
}
flag SA_IsConstraintValid(const SA pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((3 <= strlen(pVal)) && (strlen(pVal) <= 8));
    if (ret) {
        ret = SA_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_SA;

	return ret;
}

void SA_Initialize(SA pVal)
{
	(void)pVal;


	memset(pVal, 'A', 8);
	pVal[8] = 0;

}

flag SA_ACN_Encode(const SA pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
	asn1SccSint nStringLength;
    *pErrCode = 0;
	ret = bCheckConstraints ? SA_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    nStringLength = strlen(pVal);
	    /*ret = nStringLength >= 3 && nStringLength <= 8;*/
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, 3, 8);
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4A,
	    	                                0x4B,0x4C,0x4D,0x4E,0x4F,0x50};
	    	int charIndex = GetCharIndex(pVal[i1], allowedCharSet, 16);
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, 15);
	    }

    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SA_ACN_Decode(SA pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nStringLength;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, 3, 8);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_SA;
	if (ret) {
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4A,
	    	                                0x4B,0x4C,0x4D,0x4E,0x4F,0x50};
	    	asn1SccSint charIndex = 0;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charIndex, 0, 15);
	    	*pErrCode = ret ? 0 : ERR_ACN_DECODE_SA;
	    	if (ret && (charIndex < 0 || charIndex > 15)) { ret = FALSE; *pErrCode = ERR_ACN_DECODE_SA; }
	    	pVal[i1] = ret ? allowedCharSet[charIndex] : '\0' ;
	    }
	    pVal[nStringLength] = 0x0;
	}

    return ret && SA_IsConstraintValid(pVal, pErrCode);
}


flag S8_Equal(const S8 pVal1, const S8 pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag S8_IsConstraintValid(const S8 pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) == 4);
    *pErrCode = ret ? 0 :  ERR_S8;

	return ret;
}

void S8_Initialize(S8 pVal)
{
	(void)pVal;


	memset(pVal, ' ', 4);
	pVal[4] = 0;

}

flag S8_ACN_Encode(const S8 pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? S8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_String_Ascii_FixSize(pBitStrm, 4, pVal);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag S8_ACN_Decode(S8 pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_String_Ascii_FixSize(pBitStrm, 4, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_S8;

    return ret && S8_IsConstraintValid(pVal, pErrCode);
}


flag SNT_Equal(const SNT pVal1, const SNT pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag SNT_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((('A' <= str[i]) && (str[i] <= 'Z')));
        i = i + 1;
    }
    return ret;
}
flag SNT_IsConstraintValid(const SNT pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 10);
    if (ret) {
        ret = SNT_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_SNT;

	return ret;
}

void SNT_Initialize(SNT pVal)
{
	(void)pVal;


	memset(pVal, 'A', 10);
	pVal[10] = 0;

}

flag SNT_ACN_Encode(const SNT pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? SNT_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_String_Ascii_Null_Terminated_mult(pBitStrm, 10, (byte[]){0}, 1, pVal);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SNT_ACN_Decode(SNT pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_String_Ascii_Null_Terminated_mult(pBitStrm, 10, (byte[]){0}, 1, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_SNT;

    return ret && SNT_IsConstraintValid(pVal, pErrCode);
}


flag AChc_Equal(const AChc* pVal1, const AChc* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case ca_PRESENT:
    		ret = (pVal1->u.ca == pVal2->u.ca);
    		break;
    	case cb_PRESENT:
    		ret = (pVal1->u.cb == pVal2->u.cb);
    		break;
    	case cc_PRESENT:
    		ret = OV_Equal((&(pVal1->u.cc)), (&(pVal2->u.cc)));
    		break;
    	case cd_PRESENT:
    		ret = (strcmp(pVal1->u.cd, pVal2->u.cd) == 0);
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag AChc_IsConstraintValid(const AChc* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case ca_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.ca)), pErrCode);
            break;          
        case cb_PRESENT : 
            ret = BT_IsConstraintValid((&(pVal->u.cb)), pErrCode);
            break;          
        case cc_PRESENT : 
            ret = OV_IsConstraintValid((&(pVal->u.cc)), pErrCode);
            break;          
        case cd_PRESENT : 
            ret = SNT_IsConstraintValid(pVal->u.cd, pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_ACHC;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void AChc_Initialize(AChc* pVal)
{
	(void)pVal;


	pVal->kind = ca_PRESENT;
	pVal->u.ca = 0UL;
}

flag AChc_ACN_Encode(const AChc* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? AChc_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch(pVal->kind)
	    {
	    case ca_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 3);
	    	ret = P8_ACN_Encode((&(pVal->u.ca)), pBitStrm, pErrCode, FALSE);
	    	break;
	    case cb_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 3);
	    	ret = BT_ACN_Encode((&(pVal->u.cb)), pBitStrm, pErrCode, FALSE);
	    	break;
	    case cc_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 2, 0, 3);
	    	ret = OV_ACN_Encode((&(pVal->u.cc)), pBitStrm, pErrCode, FALSE);
	    	break;
	    case cd_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 3, 0, 3);
	    	ret = SNT_ACN_Encode(pVal->u.cd, pBitStrm, pErrCode, FALSE);
	    	break;
	    default: /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_ENCODE_ACHC;         /*COVERAGE_IGNORE*/
	        ret = FALSE;                    /*COVERAGE_IGNORE*/
	    } /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag AChc_ACN_Decode(AChc* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint ACM_AChc_index_tmp;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &ACM_AChc_index_tmp, 0, 3);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ACHC;
	if (ret) {
	    switch(ACM_AChc_index_tmp)
	    {
	    case 0:
	    	pVal->kind = ca_PRESENT;
	    	ret = P8_ACN_Decode((&(pVal->u.ca)), pBitStrm, pErrCode);
	    	break;
	    case 1:
	    	pVal->kind = cb_PRESENT;
	    	ret = BT_ACN_Decode((&(pVal->u.cb)), pBitStrm, pErrCode);
	    	break;
	    case 2:
	    	pVal->kind = cc_PRESENT;
	    	ret = OV_ACN_Decode((&(pVal->u.cc)), pBitStrm, pErrCode);
	    	break;
	    case 3:
	    	pVal->kind = cd_PRESENT;
	    	ret = SNT_ACN_Decode(pVal->u.cd, pBitStrm, pErrCode);
	    	break;
	    default: /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_ACHC;     /*COVERAGE_IGNORE*/
	        ret = FALSE;                /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && AChc_IsConstraintValid(pVal, pErrCode);
}


flag SNM_Equal(const SNM pVal1, const SNM pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag SNM_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((('A' <= str[i]) && (str[i] <= 'Z')));
        i = i + 1;
    }
    return ret;
}
flag SNM_IsConstraintValid(const SNM pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= strlen(pVal)) && (strlen(pVal) <= 10));
    if (ret) {
        ret = SNM_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_SNM;

	return ret;
}

void SNM_Initialize(SNM pVal)
{
	(void)pVal;


	memset(pVal, 'A', 10);
	pVal[10] = 0;

}

flag SNM_ACN_Encode(const SNM pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? SNM_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    Acn_Enc_String_Ascii_Null_Terminated_mult(pBitStrm, 10, (byte[]){1, 2}, 2, pVal);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SNM_ACN_Decode(SNM pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = Acn_Dec_String_Ascii_Null_Terminated_mult(pBitStrm, 10, (byte[]){1, 2}, 2, pVal);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_SNM;

    return ret && SNM_IsConstraintValid(pVal, pErrCode);
}


flag BNT_Equal(const BNT* pVal1, const BNT* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BNT_IsConstraintValid(const BNT* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 20));
    *pErrCode = ret ? 0 :  ERR_BNT;

	return ret;
}

void BNT_Initialize(BNT* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 24/8);

	pVal->nCount = 1;
}

flag BNT_ACN_Encode(const BNT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? BNT_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBits(pBitStrm, pVal->arr, pVal->nCount);
	    BitStream_AppendBits(pBitStrm, (byte[]){15, 15}, 16);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BNT_ACN_Decode(BNT* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_ReadBits_nullterminated(pBitStrm, (byte[]){15, 15}, 16, pVal->arr, 20, &pVal->nCount);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_BNT;

    return ret && BNT_IsConstraintValid(pVal, pErrCode);
}


flag Strs_Equal(const Strs* pVal1, const Strs* pVal2)
{
	flag ret=TRUE;

    ret = (strcmp(pVal1->s_a, pVal2->s_a) == 0);

    if (ret) {
        ret = (strcmp(pVal1->s_b, pVal2->s_b) == 0);

        if (ret) {
            ret = (strcmp(pVal1->s_c, pVal2->s_c) == 0);

            if (ret) {
                ret = (strcmp(pVal1->s_d, pVal2->s_d) == 0);

                if (ret) {
                    ret = BNT_Equal((&(pVal1->s_e)), (&(pVal2->s_e)));

                    if (ret) {
                        ret = (strcmp(pVal1->s_f, pVal2->s_f) == 0);

                        if (ret) {
                            ret = OFx_Equal((&(pVal1->s_g)), (&(pVal2->s_g)));

                            if (ret) {
                                ret = BV_Equal((&(pVal1->s_h)), (&(pVal2->s_h)));

                                if (ret) {
                                    ret = BF9_Equal((&(pVal1->s_i)), (&(pVal2->s_i)));

                                }

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag Strs_IsConstraintValid(const Strs* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = SI_IsConstraintValid(pVal->s_a, pErrCode);
    if (ret) {
        ret = SNT_IsConstraintValid(pVal->s_b, pErrCode);
        if (ret) {
            ret = SNM_IsConstraintValid(pVal->s_c, pErrCode);
            if (ret) {
                ret = S8_IsConstraintValid(pVal->s_d, pErrCode);
                if (ret) {
                    ret = BNT_IsConstraintValid((&(pVal->s_e)), pErrCode);
                    if (ret) {
                        ret = SA_IsConstraintValid(pVal->s_f, pErrCode);
                        if (ret) {
                            ret = OFx_IsConstraintValid((&(pVal->s_g)), pErrCode);
                            if (ret) {
                                ret = BV_IsConstraintValid((&(pVal->s_h)), pErrCode);
                                if (ret) {
                                    ret = BF9_IsConstraintValid((&(pVal->s_i)), pErrCode);
                                }   /*COVERAGE_IGNORE*/
                            }   /*COVERAGE_IGNORE*/
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Strs_Initialize(Strs* pVal)
{
	(void)pVal;


	/*set s_a */
	SI_Initialize(pVal->s_a);
	/*set s_b */
	SNT_Initialize(pVal->s_b);
	/*set s_c */
	SNM_Initialize(pVal->s_c);
	/*set s_d */
	S8_Initialize(pVal->s_d);
	/*set s_e */
	BNT_Initialize((&(pVal->s_e)));
	/*set s_f */
	SA_Initialize(pVal->s_f);
	/*set s_g */
	OFx_Initialize((&(pVal->s_g)));
	/*set s_h */
	BV_Initialize((&(pVal->s_h)));
	/*set s_i */
	BF9_Initialize((&(pVal->s_i)));
}

flag Strs_ACN_Encode(const Strs* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Strs_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode s_a */
	    ret = SI_ACN_Encode(pVal->s_a, pBitStrm, pErrCode, FALSE);
	    if (ret) {
	        /*Encode s_b */
	        ret = SNT_ACN_Encode(pVal->s_b, pBitStrm, pErrCode, FALSE);
	        if (ret) {
	            /*Encode s_c */
	            ret = SNM_ACN_Encode(pVal->s_c, pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode s_d */
	                ret = S8_ACN_Encode(pVal->s_d, pBitStrm, pErrCode, FALSE);
	                if (ret) {
	                    /*Encode s_e */
	                    ret = BNT_ACN_Encode((&(pVal->s_e)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode s_f */
	                        ret = SA_ACN_Encode(pVal->s_f, pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode s_g */
	                            ret = OFx_ACN_Encode((&(pVal->s_g)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode s_h */
	                                ret = BV_ACN_Encode((&(pVal->s_h)), pBitStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    /*Encode s_i */
	                                    ret = BF9_ACN_Encode((&(pVal->s_i)), pBitStrm, pErrCode, FALSE);
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Strs_ACN_Decode(Strs* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode s_a */
	ret = SI_ACN_Decode(pVal->s_a, pBitStrm, pErrCode);
	if (ret) {
	    /*Decode s_b */
	    ret = SNT_ACN_Decode(pVal->s_b, pBitStrm, pErrCode);
	    if (ret) {
	        /*Decode s_c */
	        ret = SNM_ACN_Decode(pVal->s_c, pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode s_d */
	            ret = S8_ACN_Decode(pVal->s_d, pBitStrm, pErrCode);
	            if (ret) {
	                /*Decode s_e */
	                ret = BNT_ACN_Decode((&(pVal->s_e)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode s_f */
	                    ret = SA_ACN_Decode(pVal->s_f, pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode s_g */
	                        ret = OFx_ACN_Decode((&(pVal->s_g)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode s_h */
	                            ret = BV_ACN_Decode((&(pVal->s_h)), pBitStrm, pErrCode);
	                            if (ret) {
	                                /*Decode s_i */
	                                ret = BF9_ACN_Decode((&(pVal->s_i)), pBitStrm, pErrCode);
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && Strs_IsConstraintValid(pVal, pErrCode);
}


flag ONT_Equal(const ONT* pVal1, const ONT* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag ONT_IsConstraintValid(const ONT* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 9));
    *pErrCode = ret ? 0 :  ERR_ONT;

	return ret;
}

void ONT_Initialize(ONT* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 9);
	pVal->nCount = 1;

}

flag ONT_ACN_Encode(const ONT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? ONT_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	BitStream_AppendByte0(pBitStrm, pVal->arr[i1]);
	    }
	    BitStream_AppendBits(pBitStrm, (byte[]){255, 10}, 16);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag ONT_ACN_Decode(ONT* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	int checkBitPatternPresentResult=0;

	i1=0;
	ret = TRUE;
	while(ret && i1 < 9 && ( (checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, (byte[]){255, 10}, 16)) == 1))
	{
		ret = BitStream_ReadByte(pBitStrm, &(pVal->arr[i1]));
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_ONT;
		i1++;
	}

	if (ret && (i1 == 9) && (checkBitPatternPresentResult == 1)) {
		checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, (byte[]){255, 10}, 16);
	}


	if (ret && (checkBitPatternPresentResult != 2)) {
		ret = FALSE;			/*COVERAGE_IGNORE*/
		*pErrCode = ERR_ACN_DECODE_ONT;	/*COVERAGE_IGNORE*/
	} else if (ret) {
		pVal->nCount = i1;
		ret = true;
		*pErrCode = 0;
	}


    return ret && ONT_IsConstraintValid(pVal, pErrCode);
}


flag QNT_elem_Equal(const QNT_elem* pVal1, const QNT_elem* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag QNT_Equal(const QNT* pVal1, const QNT* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = QNT_elem_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag QNT_elem_IsConstraintValid(const QNT_elem* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 200UL);
    *pErrCode = ret ? 0 :  ERR_QNT_ELM;

	return ret;
}

flag QNT_IsConstraintValid(const QNT* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = ((2 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 9));
    *pErrCode = ret ? 0 :  ERR_QNT;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = QNT_elem_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void QNT_elem_Initialize(QNT_elem* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void QNT_Initialize(QNT* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 9) {
	    QNT_elem_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 2;
}

flag QNT_ACN_Encode(const QNT* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	int i1;
    *pErrCode = 0;
	ret = bCheckConstraints ? QNT_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->arr[i1]);
	    }
	    BitStream_AppendBits(pBitStrm, (byte[]){255, 254}, 16);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag QNT_ACN_Decode(QNT* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int checkBitPatternPresentResult=0;
	int i1;

	i1=0;
	ret = TRUE;
	while(ret && i1 < 9 && ( (checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, (byte[]){255, 254}, 16)) == 1))
	{
		ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->arr[i1])));
		*pErrCode = ret ? 0 : ERR_ACN_DECODE_QNT_ELM;
		i1++;
	}

	if (ret && (i1 == 9) && (checkBitPatternPresentResult == 1)) {
		checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, (byte[]){255, 254}, 16);
	}


	if (ret && (checkBitPatternPresentResult != 2)) {
		ret = FALSE;			/*COVERAGE_IGNORE*/
		*pErrCode = ERR_ACN_DECODE_QNT;	/*COVERAGE_IGNORE*/
	} else if (ret) {
		pVal->nCount = i1;
		ret = true;
		*pErrCode = 0;
	}


    return ret && QNT_IsConstraintValid(pVal, pErrCode);
}


flag Algn_a_a_Equal(const Algn_a_a* pVal1, const Algn_a_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Algn_a_b_Equal(const Algn_a_b* pVal1, const Algn_a_b* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Algn_a_c_Equal(const Algn_a_c* pVal1, const Algn_a_c* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Algn_a_d_Equal(const Algn_a_d* pVal1, const Algn_a_d* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Algn_a_f_Equal(const Algn_a_f* pVal1, const Algn_a_f* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Algn_a_g_Equal(const Algn_a_g* pVal1, const Algn_a_g* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag Algn_a_h_Equal(const Algn_a_h* pVal1, const Algn_a_h* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Algn_Equal(const Algn* pVal1, const Algn* pVal2)
{
	flag ret=TRUE;

    ret = Algn_a_a_Equal((&(pVal1->a_a)), (&(pVal2->a_a)));

    if (ret) {
        ret = Algn_a_b_Equal((&(pVal1->a_b)), (&(pVal2->a_b)));

        if (ret) {
            ret = Algn_a_c_Equal((&(pVal1->a_c)), (&(pVal2->a_c)));

            if (ret) {
                ret = Algn_a_d_Equal((&(pVal1->a_d)), (&(pVal2->a_d)));

                if (ret) {
                    ret = (pVal1->a_e == pVal2->a_e);

                    if (ret) {
                        ret = Algn_a_f_Equal((&(pVal1->a_f)), (&(pVal2->a_f)));

                        if (ret) {
                            ret = Algn_a_g_Equal((&(pVal1->a_g)), (&(pVal2->a_g)));

                            if (ret) {
                                ret = Algn_a_h_Equal((&(pVal1->a_h)), (&(pVal2->a_h)));

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag Algn_a_a_IsConstraintValid(const Algn_a_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_ALGN_A_A;

	return ret;
}

flag Algn_a_b_IsConstraintValid(const Algn_a_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 255UL);
    *pErrCode = ret ? 0 :  ERR_ALGN_A_B;

	return ret;
}

flag Algn_a_c_IsConstraintValid(const Algn_a_c* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_ALGN_A_C;

	return ret;
}

flag Algn_a_d_IsConstraintValid(const Algn_a_d* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 65535UL);
    *pErrCode = ret ? 0 :  ERR_ALGN_A_D;

	return ret;
}

flag Algn_a_f_IsConstraintValid(const Algn_a_f* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-9LL <= (*(pVal))) && ((*(pVal)) <= 9LL));
    *pErrCode = ret ? 0 :  ERR_ALGN_A_F;

	return ret;
}

flag Algn_a_g_IsConstraintValid(const Algn_a_g* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 5);
    *pErrCode = ret ? 0 :  ERR_ALGN_A_G;

	return ret;
}

flag Algn_a_h_IsConstraintValid(const Algn_a_h* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 1UL);
    *pErrCode = ret ? 0 :  ERR_ALGN_A_H;

	return ret;
}

flag Algn_IsConstraintValid(const Algn* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Algn_a_a_IsConstraintValid((&(pVal->a_a)), pErrCode);
    if (ret) {
        ret = Algn_a_b_IsConstraintValid((&(pVal->a_b)), pErrCode);
        if (ret) {
            ret = Algn_a_c_IsConstraintValid((&(pVal->a_c)), pErrCode);
            if (ret) {
                ret = Algn_a_d_IsConstraintValid((&(pVal->a_d)), pErrCode);
                if (ret) {
                    ret = Algn_a_f_IsConstraintValid((&(pVal->a_f)), pErrCode);
                    if (ret) {
                        ret = Algn_a_g_IsConstraintValid((&(pVal->a_g)), pErrCode);
                        if (ret) {
                            ret = Algn_a_h_IsConstraintValid((&(pVal->a_h)), pErrCode);
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Algn_a_a_Initialize(Algn_a_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Algn_a_b_Initialize(Algn_a_b* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Algn_a_c_Initialize(Algn_a_c* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Algn_a_d_Initialize(Algn_a_d* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Algn_a_f_Initialize(Algn_a_f* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}
void Algn_a_g_Initialize(Algn_a_g* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 5);
	pVal->nCount = 0;

}
void Algn_a_h_Initialize(Algn_a_h* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Algn_Initialize(Algn* pVal)
{
	(void)pVal;


	/*set a_a */
	Algn_a_a_Initialize((&(pVal->a_a)));
	/*set a_b */
	Algn_a_b_Initialize((&(pVal->a_b)));
	/*set a_c */
	Algn_a_c_Initialize((&(pVal->a_c)));
	/*set a_d */
	Algn_a_d_Initialize((&(pVal->a_d)));
	/*set a_e */
	pVal->a_e = FALSE;
	/*set a_f */
	Algn_a_f_Initialize((&(pVal->a_f)));
	/*set a_g */
	Algn_a_g_Initialize((&(pVal->a_g)));
	/*set a_h */
	Algn_a_h_Initialize((&(pVal->a_h)));
}

flag Algn_ACN_Encode(const Algn* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? Algn_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode a_a */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a_a, 0, 7);
	    if (ret) {
	        /*Encode a_b */
	        Acn_AlignToNextByte(pBitStrm, TRUE);
	        Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->a_b);
	        if (ret) {
	            /*Encode a_c */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a_c, 0, 3);
	            if (ret) {
	                /*Encode a_d */
	                Acn_AlignToNextWord(pBitStrm, TRUE);
	                Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, pVal->a_d);
	                if (ret) {
	                    /*Encode a_e */
	                    BitStream_AppendBit(pBitStrm,pVal->a_e);
	                    if (ret) {
	                        /*Encode a_f */
	                        Acn_AlignToNextDWord(pBitStrm, TRUE);
	                        Acn_Enc_Int_TwosComplement_ConstSize(pBitStrm, pVal->a_f, 5);
	                        if (ret) {
	                            /*Encode a_g */
	                            Acn_AlignToNextWord(pBitStrm, TRUE);
	                            BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->a_g.nCount, 0, 5);
	                            ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->a_g.arr, pVal->a_g.nCount);
	                            if (ret) {
	                                /*Encode a_h */
	                                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->a_h, 0, 1);
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Algn_ACN_Decode(Algn* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	/*Decode a_a */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a_a)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_A;
	if (ret) {
	    /*Decode a_b */
	    Acn_AlignToNextByte(pBitStrm, FALSE);
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->a_b)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_B;
	    if (ret) {
	        /*Decode a_c */
	        ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a_c)), 0, 3);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_C;
	        if (ret) {
	            /*Decode a_d */
	            Acn_AlignToNextWord(pBitStrm, FALSE);
	            ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(pVal->a_d)));
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_D;
	            if (ret) {
	                /*Decode a_e */
	                ret = BitStream_ReadBit(pBitStrm, (&(pVal->a_e)));
	                *pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_E;
	                if (ret) {
	                    /*Decode a_f */
	                    Acn_AlignToNextDWord(pBitStrm, FALSE);
	                    ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, (&(pVal->a_f)), 5);
	                    *pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_F;
	                    if (ret) {
	                        /*Decode a_g */
	                        Acn_AlignToNextWord(pBitStrm, FALSE);
	                        ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 5);
	                        if (ret) {
	                            pVal->a_g.nCount = (long)nCount;
	                            ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->a_g.arr, pVal->a_g.nCount);
	                        }
	                        *pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_G;
	                        if (ret) {
	                            /*Decode a_h */
	                            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->a_h)), 0, 1);
	                            *pErrCode = ret ? 0 : ERR_ACN_DECODE_ALGN_A_H;
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && Algn_IsConstraintValid(pVal, pErrCode);
}


flag ChE_Equal(const ChE* pVal1, const ChE* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag ChE_IsConstraintValid(const ChE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == ChE_al_a)) || (((*(pVal)) == ChE_al_b)))) || (((*(pVal)) == ChE_al_c)));
    *pErrCode = ret ? 0 :  ERR_CHE;

	return ret;
}

void ChE_Initialize(ChE* pVal)
{
	(void)pVal;


	(*(pVal)) = ChE_al_a;
}

flag ChE_ACN_Encode(const ChE* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? ChE_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case ChE_al_a:
	            intVal_pVal = 0UL;
	            break;
	        case ChE_al_b:
	            intVal_pVal = 1UL;
	            break;
	        case ChE_al_c:
	            intVal_pVal = 2UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_CHE;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, intVal_pVal, 0, 2);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag ChE_ACN_Decode(ChE* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(intVal_pVal)), 0, 2);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CHE;
	if (ret) {
	    switch (intVal_pVal) {
	        case 0:
	            (*(pVal)) = ChE_al_a;
	            break;
	        case 1:
	            (*(pVal)) = ChE_al_b;
	            break;
	        case 2:
	            (*(pVal)) = ChE_al_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_CHE;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && ChE_IsConstraintValid(pVal, pErrCode);
}


flag ChEV_Equal(const ChEV* pVal1, const ChEV* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag ChEV_IsConstraintValid(const ChEV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == ChEV_al_a)) || (((*(pVal)) == ChEV_al_b)))) || (((*(pVal)) == ChEV_al_c)));
    *pErrCode = ret ? 0 :  ERR_CHEV;

	return ret;
}

void ChEV_Initialize(ChEV* pVal)
{
	(void)pVal;


	(*(pVal)) = ChEV_al_a;
}

flag ChEV_ACN_Encode(const ChEV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint intVal_pVal;
    *pErrCode = 0;
	ret = bCheckConstraints ? ChEV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal))) {
	        case ChEV_al_a:
	            intVal_pVal = 5UL;
	            break;
	        case ChEV_al_b:
	            intVal_pVal = 6UL;
	            break;
	        case ChEV_al_c:
	            intVal_pVal = 200UL;
	            break;
	        default:                                    /*COVERAGE_IGNORE*/
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	            *pErrCode = ERR_ACN_ENCODE_CHEV;                 /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	    	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, intVal_pVal);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag ChEV_ACN_Decode(ChEV* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint intVal_pVal;

	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(intVal_pVal)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_CHEV;
	if (ret) {
	    switch (intVal_pVal) {
	        case 5:
	            (*(pVal)) = ChEV_al_a;
	            break;
	        case 6:
	            (*(pVal)) = ChEV_al_b;
	            break;
	        case 200:
	            (*(pVal)) = ChEV_al_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_CHEV;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/

    return ret && ChEV_IsConstraintValid(pVal, pErrCode);
}


flag DChC_Equal(const DChC* pVal1, const DChC* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case al_a_PRESENT:
    		ret = (pVal1->u.al_a == pVal2->u.al_a);
    		break;
    	case al_b_PRESENT:
    		ret = OV_Equal((&(pVal1->u.al_b)), (&(pVal2->u.al_b)));
    		break;
    	case al_c_PRESENT:
    		ret = ASo_Equal((&(pVal1->u.al_c)), (&(pVal2->u.al_c)));
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag DChC_IsConstraintValid(const DChC* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case al_a_PRESENT : 
            ret = P8_IsConstraintValid((&(pVal->u.al_a)), pErrCode);
            break;          
        case al_b_PRESENT : 
            ret = OV_IsConstraintValid((&(pVal->u.al_b)), pErrCode);
            break;          
        case al_c_PRESENT : 
            ret = ASo_IsConstraintValid((&(pVal->u.al_c)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_DCHC;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void DChC_Initialize(DChC* pVal)
{
	(void)pVal;


	pVal->kind = al_a_PRESENT;
	pVal->u.al_a = 0UL;
}


flag DCh_g_m_Equal(const DCh_g_m* pVal1, const DCh_g_m* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag DCh_Equal(const DCh* pVal1, const DCh* pVal2)
{
	flag ret=TRUE;

    ret = DCh_g_m_Equal((&(pVal1->g_m)), (&(pVal2->g_m)));

    if (ret) {
        ret = DChC_Equal((&(pVal1->g_c)), (&(pVal2->g_c)));

    }

	return ret;

}

flag DCh_g_m_IsConstraintValid(const DCh_g_m* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_DCH_G_M;

	return ret;
}

flag DCh_IsConstraintValid(const DCh* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = DCh_g_m_IsConstraintValid((&(pVal->g_m)), pErrCode);
    if (ret) {
        ret = DChC_IsConstraintValid((&(pVal->g_c)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void DCh_g_m_Initialize(DCh_g_m* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void DCh_Initialize(DCh* pVal)
{
	(void)pVal;


	/*set g_m */
	DCh_g_m_Initialize((&(pVal->g_m)));
	/*set g_c */
	DChC_Initialize((&(pVal->g_c)));
}

flag DCh_ACN_Encode(const DCh* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	ChEV DCh_which;
	flag DCh_which_is_initialized=FALSE;
	asn1SccUint intVal_DCh_which;
    *pErrCode = 0;
	ret = bCheckConstraints ? DCh_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch (pVal->g_c.kind) {
	        case al_a_PRESENT:
	            DCh_which_is_initialized = TRUE;
	        	DCh_which = ChEV_al_a;
	            break;
	        case al_b_PRESENT:
	            DCh_which_is_initialized = TRUE;
	        	DCh_which = ChEV_al_b;
	            break;
	        case al_c_PRESENT:
	            DCh_which_is_initialized = TRUE;
	        	DCh_which = ChEV_al_c;
	            break;
	        default:
	            ret = FALSE;                            /*COVERAGE_IGNORE*/
	    }
	    if (ret) {
	        /*Encode DCh_which */
	        if (DCh_which_is_initialized) {
	            ret = TRUE;
	            switch(DCh_which) {
	                case ChEV_al_a:
	                    intVal_DCh_which = 5UL;
	                    break;
	                case ChEV_al_b:
	                    intVal_DCh_which = 6UL;
	                    break;
	                case ChEV_al_c:
	                    intVal_DCh_which = 200UL;
	                    break;
	                default:                                    /*COVERAGE_IGNORE*/
	                    ret = FALSE;                            /*COVERAGE_IGNORE*/
	                    *pErrCode = ERR_ACN_ENCODE_DCH_WHICH;                 /*COVERAGE_IGNORE*/
	            }
	            if (ret) {
	            	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, intVal_DCh_which);
	            }
	        } else {
	            *pErrCode = ERR_ACN_ENCODE_DCH_WHICH_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode g_m */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->g_m, 0, 31);
	        if (ret) {
	            /*Encode g_c */
	            switch(pVal->g_c.kind)
	            {
	                case al_a_PRESENT:
	                	ret = P8_ACN_Encode((&(pVal->g_c.u.al_a)), pBitStrm, pErrCode, FALSE);
	                	break;
	                case al_b_PRESENT:
	                	ret = OV_ACN_Encode((&(pVal->g_c.u.al_b)), pBitStrm, pErrCode, FALSE);
	                	break;
	                case al_c_PRESENT:
	                	ret = ASo_ACN_Encode((&(pVal->g_c.u.al_c)), pBitStrm, pErrCode, FALSE);
	                	break;
	            default:
	                *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag DCh_ACN_Decode(DCh* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	ChEV DCh_which;
	asn1SccUint intVal_DCh_which;

	/*Decode DCh_which */
	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(intVal_DCh_which)));
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_DCH_WHICH;
	if (ret) {
	    switch (intVal_DCh_which) {
	        case 5:
	            DCh_which = ChEV_al_a;
	            break;
	        case 6:
	            DCh_which = ChEV_al_b;
	            break;
	        case 200:
	            DCh_which = ChEV_al_c;
	            break;
	    default:                                    /*COVERAGE_IGNORE*/
	        ret = FALSE;                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_ACN_DECODE_DCH_WHICH;                 /*COVERAGE_IGNORE*/
	    }
	} /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode g_m */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->g_m)), 0, 31);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_DCH_G_M;
	    if (ret) {
	        /*Decode g_c */
	        switch(DCh_which)
	        {
	            case ChEV_al_a:
	            	pVal->g_c.kind = al_a_PRESENT;
	            	ret = P8_ACN_Decode((&(pVal->g_c.u.al_a)), pBitStrm, pErrCode);
	            	break;
	            case ChEV_al_b:
	            	pVal->g_c.kind = al_b_PRESENT;
	            	ret = OV_ACN_Decode((&(pVal->g_c.u.al_b)), pBitStrm, pErrCode);
	            	break;
	            case ChEV_al_c:
	            	pVal->g_c.kind = al_c_PRESENT;
	            	ret = ASo_ACN_Decode((&(pVal->g_c.u.al_c)), pBitStrm, pErrCode);
	            	break;
	        default:
	            *pErrCode = ERR_INVALID_ENUM_VALUE;         /*COVERAGE_IGNORE*/
	            ret = FALSE;                    /*COVERAGE_IGNORE*/
	        }
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && DCh_IsConstraintValid(pVal, pErrCode);
}


flag PHdr_h_ver_Equal(const PHdr_h_ver* pVal1, const PHdr_h_ver* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag PHdr_h_end_Equal(const PHdr_h_end* pVal1, const PHdr_h_end* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag PHdr_Equal(const PHdr* pVal1, const PHdr* pVal2)
{
	flag ret=TRUE;

    ret = PHdr_h_ver_Equal((&(pVal1->h_ver)), (&(pVal2->h_ver)));

    if (ret) {
        ret = PHdr_h_end_Equal((&(pVal1->h_end)), (&(pVal2->h_end)));

    }

	return ret;

}

flag PHdr_h_ver_IsConstraintValid(const PHdr_h_ver* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_PHDR_H_VER;

	return ret;
}

flag PHdr_h_end_IsConstraintValid(const PHdr_h_end* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_PHDR_H_END;

	return ret;
}

flag PHdr_IsConstraintValid(const PHdr* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = PHdr_h_ver_IsConstraintValid((&(pVal->h_ver)), pErrCode);
    if (ret) {
        ret = PHdr_h_end_IsConstraintValid((&(pVal->h_end)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void PHdr_h_ver_Initialize(PHdr_h_ver* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void PHdr_h_end_Initialize(PHdr_h_end* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void PHdr_Initialize(PHdr* pVal)
{
	(void)pVal;


	/*set h_ver */
	PHdr_h_ver_Initialize((&(pVal->h_ver)));
	/*set h_end */
	PHdr_h_end_Initialize((&(pVal->h_end)));
}

flag PHdr_ACN_Encode(const PHdr* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? PHdr_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h_ver */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h_ver, 0, 7);
	    if (ret) {
	        /*Encode h_end */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->h_end, 0, 3);
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag PHdr_ACN_Decode(PHdr* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode h_ver */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h_ver)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_PHDR_H_VER;
	if (ret) {
	    /*Decode h_end */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->h_end)), 0, 3);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_PHDR_H_END;
	}   /*COVERAGE_IGNORE*/

    return ret && PHdr_IsConstraintValid(pVal, pErrCode);
}


flag Pkt_Equal(const Pkt* pVal1, const Pkt* pVal2)
{
	flag ret=TRUE;

    ret = PHdr_Equal((&(pVal1->hdr)), (&(pVal2->hdr)));

    if (ret) {
        ret = Body_Equal((&(pVal1->bdy)), (&(pVal2->bdy)));

        if (ret) {
            ret = (pVal1->trail == pVal2->trail);

        }

    }

	return ret;

}

flag Pkt_IsConstraintValid(const Pkt* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = PHdr_IsConstraintValid((&(pVal->hdr)), pErrCode);
    if (ret) {
        ret = Body_IsConstraintValid((&(pVal->bdy)), pErrCode);
        if (ret) {
            ret = P8_IsConstraintValid((&(pVal->trail)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Pkt_Initialize(Pkt* pVal)
{
	(void)pVal;


	/*set hdr */
	PHdr_Initialize((&(pVal->hdr)));
	/*set bdy */
	Body_Initialize((&(pVal->bdy)));
	/*set trail */
	P8_Initialize((&(pVal->trail)));
}

flag Pkt_ACN_Encode(const Pkt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

	asn1SccUint Pkt_hdr_plen1;
	flag Pkt_hdr_plen1_is_initialized=FALSE;
	flag Pkt_hdr_pfl1;
	flag Pkt_hdr_pfl1_is_initialized=FALSE;
    *pErrCode = 0;
	ret = bCheckConstraints ? Pkt_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode hdr */
	    /*Encode h_ver */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->hdr.h_ver, 0, 7);
	    if (ret) {
	        Pkt_hdr_plen1_is_initialized = TRUE;
	        Pkt_hdr_plen1 = pVal->bdy.b_o.nCount;
	        if (ret) {
	            /*Encode Pkt_hdr_plen1 */
	            if (Pkt_hdr_plen1_is_initialized) {
	                ret = TRUE;
	                Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, Pkt_hdr_plen1);
	            } else {
	                *pErrCode = ERR_ACN_ENCODE_PKT_HDR_PLEN1_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                ret = FALSE;                    /*COVERAGE_IGNORE*/
	            }
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            Pkt_hdr_pfl1_is_initialized = TRUE;
	            Pkt_hdr_pfl1 = (pVal->bdy.exist.b_p == 1);
	            if (ret) {
	                /*Encode Pkt_hdr_pfl1 */
	                if (Pkt_hdr_pfl1_is_initialized) {
	                    ret = TRUE;
	                    BitStream_AppendBit(pBitStrm,Pkt_hdr_pfl1);
	                } else {
	                    *pErrCode = ERR_ACN_ENCODE_PKT_HDR_PFL1_UNINITIALIZED;         /*COVERAGE_IGNORE*/
	                    ret = FALSE;                    /*COVERAGE_IGNORE*/
	                }
	            }   /*COVERAGE_IGNORE*/
	            if (ret) {
	                /*Encode h_end */
	                BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->hdr.h_end, 0, 3);
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Encode bdy */
	        /*Encode b_m */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, pVal->bdy.b_m, 0, 7);
	        if (ret) {
	            /*Encode b_o */
	            ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->bdy.b_o.arr, pVal->bdy.b_o.nCount);
	            if (ret) {
	                /*Encode b_p */
	                if (pVal->bdy.exist.b_p) {
	                	Acn_Enc_Int_PositiveInteger_ConstSize_8(pBitStrm, pVal->bdy.b_p);
	                }
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	        if (ret) {
	            /*Encode trail */
	            ret = P8_ACN_Encode((&(pVal->trail)), pBitStrm, pErrCode, FALSE);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Pkt_ACN_Decode(Pkt* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccUint Pkt_hdr_plen1;
	flag Pkt_hdr_pfl1;

	/*Decode hdr */
	/*Decode h_ver */
	ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->hdr.h_ver)), 0, 7);
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_HDR_H_VER;
	if (ret) {
	    /*Decode Pkt_hdr_plen1 */
	    ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, (&(Pkt_hdr_plen1)));
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_HDR_PLEN1;
	    if (ret) {
	        /*Decode Pkt_hdr_pfl1 */
	        ret = BitStream_ReadBit(pBitStrm, (&(Pkt_hdr_pfl1)));
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_HDR_PFL1;
	        if (ret) {
	            /*Decode h_end */
	            ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->hdr.h_end)), 0, 3);
	            *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_HDR_H_END;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/
	if (ret) {
	    /*Decode bdy */
	    /*Decode b_m */
	    ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, (&(pVal->bdy.b_m)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_BDY_B_M;
	    if (ret) {
	        /*Decode b_o */
	        ret = (Pkt_hdr_plen1<=20);
	        *pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_BDY_B_O;
	        if (ret) {
	            pVal->bdy.b_o.nCount = (int)Pkt_hdr_plen1;
	            ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->bdy.b_o.arr, pVal->bdy.b_o.nCount);
	        	*pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_BDY_B_O;
	        }
	        if (ret) {
	            pVal->bdy.exist.b_p = Pkt_hdr_pfl1 ? 1 : 0;
	            /*Decode b_p */
	            if (pVal->bdy.exist.b_p) {
	            	ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, (&(pVal->bdy.b_p)));
	            	*pErrCode = ret ? 0 : ERR_ACN_DECODE_PKT_BDY_B_P;
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	    if (ret) {
	        /*Decode trail */
	        ret = P8_ACN_Decode((&(pVal->trail)), pBitStrm, pErrCode);
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && Pkt_IsConstraintValid(pVal, pErrCode);
}


flag AMix_Equal(const AMix* pVal1, const AMix* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->exist.x_a == pVal2->exist.x_a);
    if (ret && pVal1->exist.x_a) {
    	ret = DSz_Equal((&(pVal1->x_a)), (&(pVal2->x_a)));
    }

    if (ret) {
        ret = DPr_Equal((&(pVal1->x_b)), (&(pVal2->x_b)));

        if (ret) {
            ret = DCh_Equal((&(pVal1->x_c)), (&(pVal2->x_c)));

            if (ret) {
                ret = Pkt_Equal((&(pVal1->x_d)), (&(pVal2->x_d)));

                if (ret) {
                    ret = AChc_Equal((&(pVal1->x_e)), (&(pVal2->x_e)));

                    if (ret) {
                        ret = ASoE_Equal((&(pVal1->x_f)), (&(pVal2->x_f)));

                        if (ret) {
                            ret = Algn_Equal((&(pVal1->x_g)), (&(pVal2->x_g)));

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag AMix_IsConstraintValid(const AMix* pVal, int* pErrCode)
{
    flag ret = TRUE;
    if (pVal->exist.x_a) {
    	ret = DSz_IsConstraintValid((&(pVal->x_a)), pErrCode);
    }
    if (ret) {
        ret = DPr_IsConstraintValid((&(pVal->x_b)), pErrCode);
        if (ret) {
            ret = DCh_IsConstraintValid((&(pVal->x_c)), pErrCode);
            if (ret) {
                ret = Pkt_IsConstraintValid((&(pVal->x_d)), pErrCode);
                if (ret) {
                    ret = AChc_IsConstraintValid((&(pVal->x_e)), pErrCode);
                    if (ret) {
                        ret = ASoE_IsConstraintValid((&(pVal->x_f)), pErrCode);
                        if (ret) {
                            ret = Algn_IsConstraintValid((&(pVal->x_g)), pErrCode);
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void AMix_Initialize(AMix* pVal)
{
	(void)pVal;


	/*set x_a */
	pVal->exist.x_a = 1;
	DSz_Initialize((&(pVal->x_a)));
	/*set x_b */
	DPr_Initialize((&(pVal->x_b)));
	/*set x_c */
	DCh_Initialize((&(pVal->x_c)));
	/*set x_d */
	Pkt_Initialize((&(pVal->x_d)));
	/*set x_e */
	AChc_Initialize((&(pVal->x_e)));
	/*set x_f */
	ASoE_Initialize((&(pVal->x_f)));
	/*set x_g */
	Algn_Initialize((&(pVal->x_g)));
}

flag AMix_ACN_Encode(const AMix* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;

    *pErrCode = 0;
	ret = bCheckConstraints ? AMix_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.x_a);
	    if (ret) {
	        /*Encode x_a */
	        if (pVal->exist.x_a) {
	        	ret = DSz_ACN_Encode((&(pVal->x_a)), pBitStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            /*Encode x_b */
	            ret = DPr_ACN_Encode((&(pVal->x_b)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode x_c */
	                ret = DCh_ACN_Encode((&(pVal->x_c)), pBitStrm, pErrCode, FALSE);
	                if (ret) {
	                    /*Encode x_d */
	                    ret = Pkt_ACN_Encode((&(pVal->x_d)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode x_e */
	                        ret = AChc_ACN_Encode((&(pVal->x_e)), pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode x_f */
	                            ret = ASoE_ACN_Encode((&(pVal->x_f)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode x_g */
	                                ret = Algn_ACN_Encode((&(pVal->x_g)), pBitStrm, pErrCode, FALSE);
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag AMix_ACN_Decode(AMix* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag x_a_exist;

	ret = BitStream_ReadBit(pBitStrm, &x_a_exist);
	pVal->exist.x_a = x_a_exist == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_ACN_DECODE_AMIX;
	if (ret) {
	    /*Decode x_a */
	    if (pVal->exist.x_a) {
	    	ret = DSz_ACN_Decode((&(pVal->x_a)), pBitStrm, pErrCode);
	    }
	    if (ret) {
	        /*Decode x_b */
	        ret = DPr_ACN_Decode((&(pVal->x_b)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode x_c */
	            ret = DCh_ACN_Decode((&(pVal->x_c)), pBitStrm, pErrCode);
	            if (ret) {
	                /*Decode x_d */
	                ret = Pkt_ACN_Decode((&(pVal->x_d)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode x_e */
	                    ret = AChc_ACN_Decode((&(pVal->x_e)), pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode x_f */
	                        ret = ASoE_ACN_Decode((&(pVal->x_f)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode x_g */
	                            ret = Algn_ACN_Decode((&(pVal->x_g)), pBitStrm, pErrCode);
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

    return ret && AMix_IsConstraintValid(pVal, pErrCode);
}


