/*
Code automatically generated by asn1scc tool
*/
#include <limits.h>
#include <string.h>
#include <math.h>

#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"

#include "UPM.h"


flag U8_Equal(const U8* pVal1, const U8* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag U8_IsConstraintValid(const U8* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void U8_Initialize(U8* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag U8_Encode(const U8* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? U8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)((*(pVal))), 0, 255);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag U8_Decode(U8* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, pVal, 0, 255);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_U8;

	return ret  && U8_IsConstraintValid(pVal, pErrCode);
}


flag CnF_a_Equal(const CnF_a* pVal1, const CnF_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnF_Equal(const CnF* pVal1, const CnF* pVal2)
{
	flag ret=TRUE;

    ret = CnF_a_Equal((&(pVal1->a)), (&(pVal2->a)));

    if (ret) {
        ret = (pVal1->b == pVal2->b);

    }

	return ret;

}

flag CnF_a_IsConstraintValid(const CnF_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNF_A;

	return ret;
}

flag CnF_IsConstraintValid(const CnF* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnF_a_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        ret = U8_IsConstraintValid((&(pVal->b)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnF_a_Initialize(CnF_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnF_Initialize(CnF* pVal)
{
	(void)pVal;


	/*set a */
	CnF_a_Initialize((&(pVal->a)));
	/*set b */
	U8_Initialize((&(pVal->b)));
}

flag CnF_Encode(const CnF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? CnF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode a */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->a), 0, 7);
	    if (ret) {
	        /*Encode b */
	        ret = U8_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE);
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnF_Decode(CnF* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode a */
	ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->a)), 0, 7);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CNF_A;
	if (ret) {
	    /*Decode b */
	    ret = U8_Decode((&(pVal->b)), pBitStrm, pErrCode);
	}   /*COVERAGE_IGNORE*/

	return ret  && CnF_IsConstraintValid(pVal, pErrCode);
}


flag CnX_p_Equal(const CnX_p* pVal1, const CnX_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnX_t_Equal(const CnX_t* pVal1, const CnX_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnX_Equal(const CnX* pVal1, const CnX* pVal2)
{
	flag ret=TRUE;

    ret = CnX_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnF_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = (pVal1->exist.d == pVal2->exist.d);
            if (ret && pVal1->exist.d) {
            	ret = CnF_Equal((&(pVal1->d)), (&(pVal2->d)));
            }

            if (ret) {
                ret = CnX_t_Equal((&(pVal1->t)), (&(pVal2->t)));

            }

        }

    }

	return ret;

}

flag CnX_p_IsConstraintValid(const CnX_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNX_P;

	return ret;
}

flag CnX_t_IsConstraintValid(const CnX_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_CNX_T;

	return ret;
}

flag CnX_IsConstraintValid(const CnX* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnX_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnF_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            if (pVal->exist.d) {
            	ret = CnF_IsConstraintValid((&(pVal->d)), pErrCode);
            }
            if (ret) {
                ret = CnX_t_IsConstraintValid((&(pVal->t)), pErrCode);
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnX_p_Initialize(CnX_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnX_t_Initialize(CnX_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnX_Initialize(CnX* pVal)
{
	(void)pVal;


	/*set p */
	CnX_p_Initialize((&(pVal->p)));
	/*set c */
	CnF_Initialize((&(pVal->c)));
	/*set d */
	pVal->exist.d = 1;
	CnF_Initialize((&(pVal->d)));
	/*set t */
	CnX_t_Initialize((&(pVal->t)));
}

flag CnX_Encode(const CnX* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? CnX_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.d);
	    if (ret) {
	        /*Encode p */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->p), 0, 7);
	        if (ret) {
	            /*Encode c */
	            /*open new scope to declare some variables*/
	            {
	            	/*encode to a temporary bitstream*/
	            	byte arr[CnF_REQUIRED_BYTES_FOR_ENCODING];
	            	BitStream bitStrm;
	            	BitStream_Init(&bitStrm, arr, sizeof(arr));

	            	ret = CnF_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	            	if (ret) {
	            		int nCount = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	            		ret = BitStream_EncodeOctetString(pBitStrm, arr, nCount, 2, 2);
	            	}
	            }
	            if (ret) {
	                /*Encode d */
	                if (pVal->exist.d) {
	                	/*open new scope to declare some variables*/
	                	{
	                		/*encode to a temporary bitstream*/
	                		byte arr[CnF_REQUIRED_BYTES_FOR_ENCODING];
	                		BitStream bitStrm;
	                		BitStream_Init(&bitStrm, arr, sizeof(arr));

	                		ret = CnF_Encode((&(pVal->d)), &bitStrm, pErrCode, FALSE);
	                		if (ret) {
	                			int nCount = bitStrm.currentByte*8 + bitStrm.currentBit;
	                			ret = BitStream_EncodeBitString(pBitStrm, arr, nCount, 11, 11);
	                		}
	                	}
	                }
	                if (ret) {
	                    /*Encode t */
	                    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->t), 0, 31);
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnX_Decode(CnX* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag presenceBit;

	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	pVal->exist.d = presenceBit == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CNX;
	if (ret) {
	    /*Decode p */
	    ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->p)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_CNX_P;
	    if (ret) {
	        /*Decode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*decode to a temporary bitstream*/
	        	byte arr[CnF_REQUIRED_BYTES_FOR_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));
	        	int nCount;
	        	ret = BitStream_DecodeOctetString(pBitStrm, arr, &nCount, 2, 2);
	        	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	        	if (ret) {
	        		bitStrm.count = nCount;
	        		ret = CnF_Decode((&(pVal->c)), &bitStrm, pErrCode);
	        	}
	        }
	        if (ret) {
	            /*Decode d */
	            if (pVal->exist.d) {
	            	/*open new scope to declare some variables*/
	            	{
	            		/*decode to a temporary bitstream*/
	            		byte arr[CnF_REQUIRED_BYTES_FOR_ENCODING];
	            		BitStream bitStrm;
	            		BitStream_Init(&bitStrm, arr, sizeof(arr));
	            		int nCount;
	            		ret = BitStream_DecodeBitString(pBitStrm, arr, &nCount, 11, 11);
	            		*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	            		if (ret) {
	            			bitStrm.count = (nCount + 7) / 8;
	            			ret = CnF_Decode((&(pVal->d)), &bitStrm, pErrCode);
	            		}
	            	}
	            }
	            if (ret) {
	                /*Decode t */
	                ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->t)), 0, 31);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_CNX_T;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && CnX_IsConstraintValid(pVal, pErrCode);
}


flag I5_Equal(const I5* pVal1, const I5* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag I5_IsConstraintValid(const I5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-7 <= (*(pVal))) && ((*(pVal)) <= 23));
    *pErrCode = ret ? 0 :  ERR_I5;

	return ret;
}

void I5_Initialize(I5* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}

flag I5_Encode(const I5* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? I5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, (asn1SccSint)((*(pVal))), -7, 23);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag I5_Decode(I5* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintWholeNumberInt8(pBitStrm, pVal, -7, 23);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_I5;

	return ret  && I5_IsConstraintValid(pVal, pErrCode);
}


flag U1_Equal(const U1* pVal1, const U1* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag U1_IsConstraintValid(const U1* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((5UL <= (*(pVal))) && ((*(pVal)) <= 5UL));
    *pErrCode = ret ? 0 :  ERR_U1;

	return ret;
}

void U1_Initialize(U1* pVal)
{
	(void)pVal;


	(*(pVal)) = 5UL;
}

flag U1_Encode(const U1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pBitStrm;


	*pErrCode = 0;
	ret = bCheckConstraints ? U1_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /* No need to encode value since it will always be 5UL */
	    (void)pBitStrm;
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag U1_Decode(U1* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;
	(void)pVal;
	(void)pBitStrm;


	(*(pVal))=5UL;
	(void)pBitStrm;
	ret = TRUE;
	*pErrCode = 0;

	return ret  && U1_IsConstraintValid(pVal, pErrCode);
}


flag I32_Equal(const I32* pVal1, const I32* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag I32_IsConstraintValid(const I32* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void I32_Initialize(I32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}

flag I32_Encode(const I32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? I32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, (asn1SccSint)((*(pVal))), -2147483648LL, 2147483647LL);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag I32_Decode(I32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintWholeNumberInt32(pBitStrm, pVal, -2147483648LL, 2147483647LL);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_I32;

	return ret  && I32_IsConstraintValid(pVal, pErrCode);
}


flag U32_Equal(const U32* pVal1, const U32* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag U32_IsConstraintValid(const U32* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void U32_Initialize(U32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag U32_Encode(const U32* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? U32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)((*(pVal))), 0, 4294967295LL);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag U32_Decode(U32* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumberUInt32(pBitStrm, pVal, 0, 4294967295LL);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_U32;

	return ret  && U32_IsConstraintValid(pVal, pErrCode);
}


flag I17_Equal(const I17* pVal1, const I17* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag I17_IsConstraintValid(const I17* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-70000 <= (*(pVal))) && ((*(pVal)) <= 60001));
    *pErrCode = ret ? 0 :  ERR_I17;

	return ret;
}

void I17_Initialize(I17* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}

flag I17_Encode(const I17* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? I17_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, (asn1SccSint)((*(pVal))), -70000, 60001);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag I17_Decode(I17* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintWholeNumberInt32(pBitStrm, pVal, -70000, 60001);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_I17;

	return ret  && I17_IsConstraintValid(pVal, pErrCode);
}


flag U24_Equal(const U24* pVal1, const U24* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag U24_IsConstraintValid(const U24* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1UL <= (*(pVal))) && ((*(pVal)) <= 9000000UL));
    *pErrCode = ret ? 0 :  ERR_U24;

	return ret;
}

void U24_Initialize(U24* pVal)
{
	(void)pVal;


	(*(pVal)) = 1UL;
}

flag U24_Encode(const U24* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? U24_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)((*(pVal))), 1, 9000000);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag U24_Decode(U24* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeConstraintPosWholeNumberUInt32(pBitStrm, pVal, 1, 9000000);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_U24;

	return ret  && U24_IsConstraintValid(pVal, pErrCode);
}


flag Big_Equal(const Big* pVal1, const Big* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Big_IsConstraintValid(const Big* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void Big_Initialize(Big* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag Big_Encode(const Big* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Big_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeUnConstraintWholeNumber(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Big_Decode(Big* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeUnConstraintWholeNumber(pBitStrm, pVal);   
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_BIG;                               

	return ret  && Big_IsConstraintValid(pVal, pErrCode);
}


flag Pt_px_Equal(const Pt_px* pVal1, const Pt_px* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Pt_Equal(const Pt* pVal1, const Pt* pVal2)
{
	flag ret=TRUE;

    ret = Pt_px_Equal((&(pVal1->px)), (&(pVal2->px)));

    if (ret) {
        ret = (pVal1->exist.py == pVal2->exist.py);
        if (ret && pVal1->exist.py) {
        	ret = (pVal1->py == pVal2->py);
        }

    }

	return ret;

}

flag Pt_px_IsConstraintValid(const Pt_px* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-5 <= (*(pVal))) && ((*(pVal)) <= 5));
    *pErrCode = ret ? 0 :  ERR_PT_PX;

	return ret;
}

flag Pt_IsConstraintValid(const Pt* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Pt_px_IsConstraintValid((&(pVal->px)), pErrCode);
    if (ret) {
        if (pVal->exist.py) {
        	ret = Big_IsConstraintValid((&(pVal->py)), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Pt_px_Initialize(Pt_px* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}
void Pt_Initialize(Pt* pVal)
{
	(void)pVal;


	/*set px */
	Pt_px_Initialize((&(pVal->px)));
	/*set py */
	pVal->exist.py = 1;
	Big_Initialize((&(pVal->py)));
}

flag Pt_Encode(const Pt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Pt_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.py);
	    if (ret) {
	        /*Encode px */
	        BitStream_EncodeConstraintWholeNumber(pBitStrm, (asn1SccSint)(pVal->px), -5, 5);
	        if (ret) {
	            /*Encode py */
	            if (pVal->exist.py) {
	            	ret = Big_Encode((&(pVal->py)), pBitStrm, pErrCode, FALSE);
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Pt_Decode(Pt* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag presenceBit;

	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	pVal->exist.py = presenceBit == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_PT;
	if (ret) {
	    /*Decode px */
	    ret = BitStream_DecodeConstraintWholeNumberInt8(pBitStrm, (&(pVal->px)), -5, 5);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_PT_PX;
	    if (ret) {
	        /*Decode py */
	        if (pVal->exist.py) {
	        	ret = Big_Decode((&(pVal->py)), pBitStrm, pErrCode);
	        }
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && Pt_IsConstraintValid(pVal, pErrCode);
}


flag SoPt_Equal(const SoPt* pVal1, const SoPt* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = Pt_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag SoPt_IsConstraintValid(const SoPt* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 5);
    *pErrCode = ret ? 0 :  ERR_SOPT;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = Pt_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void SoPt_Initialize(SoPt* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 5) {
	    Pt_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag SoPt_Encode(const SoPt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? SoPt_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 5);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	ret = Pt_Encode((&(pVal->arr[i1])), pBitStrm, pErrCode, FALSE);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SoPt_Decode(SoPt* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 5);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_SOPT;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = Pt_Decode((&(pVal->arr[i1])), pBitStrm, pErrCode);
	}

	return ret  && SoPt_IsConstraintValid(pVal, pErrCode);
}


flag Semi_Equal(const Semi* pVal1, const Semi* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Semi_IsConstraintValid(const Semi* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (10UL <= (*(pVal)));
    *pErrCode = ret ? 0 :  ERR_SEMI;

	return ret;
}

void Semi_Initialize(Semi* pVal)
{
	(void)pVal;


	(*(pVal)) = 10UL;
}

flag Semi_Encode(const Semi* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Semi_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeSemiConstraintPosWholeNumber(pBitStrm, (*(pVal)), 10);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Semi_Decode(Semi* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeSemiConstraintPosWholeNumber(pBitStrm, pVal, 10);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_SEMI;

	return ret  && Semi_IsConstraintValid(pVal, pErrCode);
}


flag SemiN_Equal(const SemiN* pVal1, const SemiN* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag SemiN_IsConstraintValid(const SemiN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (-300LL <= (*(pVal)));
    *pErrCode = ret ? 0 :  ERR_SEMIN;

	return ret;
}

void SemiN_Initialize(SemiN* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag SemiN_Encode(const SemiN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? SemiN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeSemiConstraintWholeNumber(pBitStrm, (*(pVal)), -300);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SemiN_Decode(SemiN* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeSemiConstraintWholeNumber(pBitStrm, pVal, -300);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_SEMIN;

	return ret  && SemiN_IsConstraintValid(pVal, pErrCode);
}


flag UpTo_Equal(const UpTo* pVal1, const UpTo* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag UpTo_IsConstraintValid(const UpTo* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 100LL);
    *pErrCode = ret ? 0 :  ERR_UPTO;

	return ret;
}

void UpTo_Initialize(UpTo* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag UpTo_Encode(const UpTo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? UpTo_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeUnConstraintWholeNumber(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag UpTo_Decode(UpTo* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeUnConstraintWholeNumber(pBitStrm, pVal);
	*pErrCode = (ret ) ? 0 : ERR_UPER_DECODE_UPTO;

	return ret  && UpTo_IsConstraintValid(pVal, pErrCode);
}


flag Flg_Equal(const Flg* pVal1, const Flg* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Flg_IsConstraintValid(const Flg* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void Flg_Initialize(Flg* pVal)
{
	(void)pVal;


	(*(pVal)) = FALSE;
}

flag Flg_Encode(const Flg* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Flg_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,(*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Flg_Decode(Flg* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_ReadBit(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_FLG;

	return ret  && Flg_IsConstraintValid(pVal, pErrCode);
}


flag CnQ_a_Equal(const CnQ_a* pVal1, const CnQ_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnQ_Equal(const CnQ* pVal1, const CnQ* pVal2)
{
	flag ret=TRUE;

    ret = CnQ_a_Equal((&(pVal1->a)), (&(pVal2->a)));

    if (ret) {
        ret = (pVal1->b == pVal2->b);

        if (ret) {
            ret = (pVal1->exist.c == pVal2->exist.c);
            if (ret && pVal1->exist.c) {
            	ret = (pVal1->c == pVal2->c);
            }

        }

    }

	return ret;

}

flag CnQ_a_IsConstraintValid(const CnQ_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNQ_A;

	return ret;
}

flag CnQ_IsConstraintValid(const CnQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnQ_a_IsConstraintValid((&(pVal->a)), pErrCode);
    if (ret) {
        ret = Flg_IsConstraintValid((&(pVal->b)), pErrCode);
        if (ret) {
            if (pVal->exist.c) {
            	ret = U32_IsConstraintValid((&(pVal->c)), pErrCode);
            }
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnQ_a_Initialize(CnQ_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnQ_Initialize(CnQ* pVal)
{
	(void)pVal;


	/*set a */
	CnQ_a_Initialize((&(pVal->a)));
	/*set b */
	Flg_Initialize((&(pVal->b)));
	/*set c */
	pVal->exist.c = 1;
	U32_Initialize((&(pVal->c)));
}

flag CnQ_Encode(const CnQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? CnQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.c);
	    if (ret) {
	        /*Encode a */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->a), 0, 7);
	        if (ret) {
	            /*Encode b */
	            ret = Flg_Encode((&(pVal->b)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode c */
	                if (pVal->exist.c) {
	                	ret = U32_Encode((&(pVal->c)), pBitStrm, pErrCode, FALSE);
	                }
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnQ_Decode(CnQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag presenceBit;

	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	pVal->exist.c = presenceBit == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CNQ;
	if (ret) {
	    /*Decode a */
	    ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->a)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_CNQ_A;
	    if (ret) {
	        /*Decode b */
	        ret = Flg_Decode((&(pVal->b)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode c */
	            if (pVal->exist.c) {
	            	ret = U32_Decode((&(pVal->c)), pBitStrm, pErrCode);
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && CnQ_IsConstraintValid(pVal, pErrCode);
}


flag CnO_p_Equal(const CnO_p* pVal1, const CnO_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnO_t_Equal(const CnO_t* pVal1, const CnO_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnO_Equal(const CnO* pVal1, const CnO* pVal2)
{
	flag ret=TRUE;

    ret = CnO_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnQ_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = CnO_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag CnO_p_IsConstraintValid(const CnO_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNO_P;

	return ret;
}

flag CnO_t_IsConstraintValid(const CnO_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_CNO_T;

	return ret;
}

flag CnO_IsConstraintValid(const CnO* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnO_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnQ_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            ret = CnO_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnO_p_Initialize(CnO_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnO_t_Initialize(CnO_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnO_Initialize(CnO* pVal)
{
	(void)pVal;


	/*set p */
	CnO_p_Initialize((&(pVal->p)));
	/*set c */
	CnQ_Initialize((&(pVal->c)));
	/*set t */
	CnO_t_Initialize((&(pVal->t)));
}

flag CnO_Encode(const CnO* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? CnO_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode p */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->p), 0, 7);
	    if (ret) {
	        /*Encode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*encode to a temporary bitstream*/
	        	byte arr[CnQ_REQUIRED_BYTES_FOR_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));

	        	ret = CnQ_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	        	if (ret) {
	        		int nCount = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	        		ret = BitStream_EncodeOctetString(pBitStrm, arr, nCount, 1, 5);
	        	}
	        }
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->t), 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnO_Decode(CnO* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode p */
	ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->p)), 0, 7);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CNO_P;
	if (ret) {
	    /*Decode c */
	    /*open new scope to declare some variables*/
	    {
	    	/*decode to a temporary bitstream*/
	    	byte arr[CnQ_REQUIRED_BYTES_FOR_ENCODING];
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));
	    	int nCount;
	    	ret = BitStream_DecodeOctetString(pBitStrm, arr, &nCount, 1, 5);
	    	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	    	if (ret) {
	    		bitStrm.count = nCount;
	    		ret = CnQ_Decode((&(pVal->c)), &bitStrm, pErrCode);
	    	}
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_UPER_DECODE_CNO_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && CnO_IsConstraintValid(pVal, pErrCode);
}


flag CnB_p_Equal(const CnB_p* pVal1, const CnB_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnB_t_Equal(const CnB_t* pVal1, const CnB_t* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnB_Equal(const CnB* pVal1, const CnB* pVal2)
{
	flag ret=TRUE;

    ret = CnB_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnQ_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = CnB_t_Equal((&(pVal1->t)), (&(pVal2->t)));

        }

    }

	return ret;

}

flag CnB_p_IsConstraintValid(const CnB_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNB_P;

	return ret;
}

flag CnB_t_IsConstraintValid(const CnB_t* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 31UL);
    *pErrCode = ret ? 0 :  ERR_CNB_T;

	return ret;
}

flag CnB_IsConstraintValid(const CnB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnB_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnQ_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            ret = CnB_t_IsConstraintValid((&(pVal->t)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnB_p_Initialize(CnB_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnB_t_Initialize(CnB_t* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnB_Initialize(CnB* pVal)
{
	(void)pVal;


	/*set p */
	CnB_p_Initialize((&(pVal->p)));
	/*set c */
	CnQ_Initialize((&(pVal->c)));
	/*set t */
	CnB_t_Initialize((&(pVal->t)));
}

flag CnB_Encode(const CnB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? CnB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode p */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->p), 0, 7);
	    if (ret) {
	        /*Encode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*encode to a temporary bitstream*/
	        	byte arr[CnQ_REQUIRED_BYTES_FOR_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));

	        	ret = CnQ_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	        	if (ret) {
	        		int nCount = bitStrm.currentByte*8 + bitStrm.currentBit;
	        		ret = BitStream_EncodeBitString(pBitStrm, arr, nCount, 5, 37);
	        	}
	        }
	        if (ret) {
	            /*Encode t */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->t), 0, 31);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnB_Decode(CnB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	/*Decode p */
	ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->p)), 0, 7);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CNB_P;
	if (ret) {
	    /*Decode c */
	    /*open new scope to declare some variables*/
	    {
	    	/*decode to a temporary bitstream*/
	    	byte arr[CnQ_REQUIRED_BYTES_FOR_ENCODING];
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));
	    	int nCount;
	    	ret = BitStream_DecodeBitString(pBitStrm, arr, &nCount, 5, 37);
	    	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	    	if (ret) {
	    		bitStrm.count = (nCount + 7) / 8;
	    		ret = CnQ_Decode((&(pVal->c)), &bitStrm, pErrCode);
	    	}
	    }
	    if (ret) {
	        /*Decode t */
	        ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->t)), 0, 31);
	        *pErrCode = ret ? 0 : ERR_UPER_DECODE_CNB_T;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && CnB_IsConstraintValid(pVal, pErrCode);
}


flag CnN_p_Equal(const CnN_p* pVal1, const CnN_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnN_d_Equal(const CnN_d* pVal1, const CnN_d* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = CnB_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag CnN_Equal(const CnN* pVal1, const CnN* pVal2)
{
	flag ret=TRUE;

    ret = CnN_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = CnO_Equal((&(pVal1->c)), (&(pVal2->c)));

        if (ret) {
            ret = CnN_d_Equal((&(pVal1->d)), (&(pVal2->d)));

        }

    }

	return ret;

}

flag CnN_p_IsConstraintValid(const CnN_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNN_P;

	return ret;
}

flag CnN_d_IsConstraintValid(const CnN_d* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 3);
    *pErrCode = ret ? 0 :  ERR_CNN_D;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = CnB_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag CnN_IsConstraintValid(const CnN* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnN_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        ret = CnO_IsConstraintValid((&(pVal->c)), pErrCode);
        if (ret) {
            ret = CnN_d_IsConstraintValid((&(pVal->d)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnN_p_Initialize(CnN_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnN_d_Initialize(CnN_d* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    CnB_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void CnN_Initialize(CnN* pVal)
{
	(void)pVal;


	/*set p */
	CnN_p_Initialize((&(pVal->p)));
	/*set c */
	CnO_Initialize((&(pVal->c)));
	/*set d */
	CnN_d_Initialize((&(pVal->d)));
}

flag CnN_Encode(const CnN* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? CnN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode p */
	    BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->p), 0, 7);
	    if (ret) {
	        /*Encode c */
	        /*open new scope to declare some variables*/
	        {
	        	/*encode to a temporary bitstream*/
	        	byte arr[CnO_REQUIRED_BYTES_FOR_ENCODING];
	        	BitStream bitStrm;
	        	BitStream_Init(&bitStrm, arr, sizeof(arr));

	        	ret = CnO_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	        	if (ret) {
	        		int nCount = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	        		ret = BitStream_EncodeOctetString(pBitStrm, arr, nCount, 3, 7);
	        	}
	        }
	        if (ret) {
	            /*Encode d */
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->d.nCount, 0, 3);
	            for(i1=0; (i1 < (int)pVal->d.nCount) && ret; i1++)
	            {
	            	ret = CnB_Encode((&(pVal->d.arr[i1])), pBitStrm, pErrCode, FALSE);
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnN_Decode(CnN* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	/*Decode p */
	ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->p)), 0, 7);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CNN_P;
	if (ret) {
	    /*Decode c */
	    /*open new scope to declare some variables*/
	    {
	    	/*decode to a temporary bitstream*/
	    	byte arr[CnO_REQUIRED_BYTES_FOR_ENCODING];
	    	BitStream bitStrm;
	    	BitStream_Init(&bitStrm, arr, sizeof(arr));
	    	int nCount;
	    	ret = BitStream_DecodeOctetString(pBitStrm, arr, &nCount, 3, 7);
	    	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	    	if (ret) {
	    		bitStrm.count = nCount;
	    		ret = CnO_Decode((&(pVal->c)), &bitStrm, pErrCode);
	    	}
	    }
	    if (ret) {
	        /*Decode d */
	        ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 3);
	        *pErrCode = ret ? 0 : ERR_UPER_DECODE_CNN_D;
	        pVal->d.nCount = (long)nCount;
	        for(i1=0; (i1 < (int)pVal->d.nCount) && ret; i1++)
	        {
	        	ret = CnB_Decode((&(pVal->d.arr[i1])), pBitStrm, pErrCode);
	        }
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && CnN_IsConstraintValid(pVal, pErrCode);
}


flag Rl_Equal(const Rl* pVal1, const Rl* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag Rl_IsConstraintValid(const Rl* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void Rl_Initialize(Rl* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag Rl_Encode(const Rl* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Rl_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeReal(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Rl_Decode(Rl* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeReal(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_RL;

	return ret  && Rl_IsConstraintValid(pVal, pErrCode);
}


flag RlC_Equal(const RlC* pVal1, const RlC* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag RlC_IsConstraintValid(const RlC* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-1.0000000000000000000E+001 <= (*(pVal))) && ((*(pVal)) <= 1.0500000000000000000E+001));
    *pErrCode = ret ? 0 :  ERR_RLC;

	return ret;
}

void RlC_Initialize(RlC* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag RlC_Encode(const RlC* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? RlC_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeReal(pBitStrm, (*(pVal)));
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag RlC_Decode(RlC* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeReal(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_RLC;

	return ret  && RlC_IsConstraintValid(pVal, pErrCode);
}


flag Col_Equal(const Col* pVal1, const Col* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Col_IsConstraintValid(const Col* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == red)) || (((*(pVal)) == green)))) || (((*(pVal)) == blue)));
    *pErrCode = ret ? 0 :  ERR_COL;

	return ret;
}

void Col_Initialize(Col* pVal)
{
	(void)pVal;


	(*(pVal)) = red;
}

flag Col_Encode(const Col* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Col_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal)))
	    {
	        case red:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 2);
	        	break;
	        case green:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 2);
	        	break;
	        case blue:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 2, 0, 2);
	        	break;
	        default:                    /*COVERAGE_IGNORE*/
	    	    *pErrCode = ERR_UPER_ENCODE_COL; /*COVERAGE_IGNORE*/
	    	    ret = FALSE;            /*COVERAGE_IGNORE*/
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Col_Decode(Col* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	{
	    asn1SccSint enumIndex;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &enumIndex, 0, 2);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_COL;
	    if (ret) {
	        switch(enumIndex)
	        {
	            case 0:
	                (*(pVal)) = red;
	                break;
	            case 1:
	                (*(pVal)) = green;
	                break;
	            case 2:
	                (*(pVal)) = blue;
	                break;
	            default:                        /*COVERAGE_IGNORE*/
		            *pErrCode = ERR_UPER_DECODE_COL;     /*COVERAGE_IGNORE*/
		            ret = FALSE;                /*COVERAGE_IGNORE*/
	        }
	    } else {
	        (*(pVal)) = red;             /*COVERAGE_IGNORE*/
	    }
	}

	return ret  && Col_IsConstraintValid(pVal, pErrCode);
}


flag Wide_Equal(const Wide* pVal1, const Wide* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Wide_IsConstraintValid(const Wide* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((((((((((((((((((((((((((((((((((((*(pVal)) == w0)) || (((*(pVal)) == w1)))) || (((*(pVal)) == w2)))) || (((*(pVal)) == w3)))) || (((*(pVal)) == w4)))) || (((*(pVal)) == w5)))) || (((*(pVal)) == w6)))) || (((*(pVal)) == w7)))) || (((*(pVal)) == w8)))) || (((*(pVal)) == w9)))) || (((*(pVal)) == w10)))) || (((*(pVal)) == w11)))) || (((*(pVal)) == w12)))) || (((*(pVal)) == w13)))) || (((*(pVal)) == w14)))) || (((*(pVal)) == w15)))) || (((*(pVal)) == w16)))) || (((*(pVal)) == w17)))) || (((*(pVal)) == w18)))) || (((*(pVal)) == w19)));
    *pErrCode = ret ? 0 :  ERR_WIDE;

	return ret;
}

void Wide_Initialize(Wide* pVal)
{
	(void)pVal;


	(*(pVal)) = w0;
}

flag Wide_Encode(const Wide* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Wide_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal)))
	    {
	        case w0:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 19);
	        	break;
	        case w1:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 19);
	        	break;
	        case w2:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 2, 0, 19);
	        	break;
	        case w3:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 3, 0, 19);
	        	break;
	        case w4:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 4, 0, 19);
	        	break;
	        case w5:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 5, 0, 19);
	        	break;
	        case w6:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 6, 0, 19);
	        	break;
	        case w7:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 7, 0, 19);
	        	break;
	        case w8:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 8, 0, 19);
	        	break;
	        case w9:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 9, 0, 19);
	        	break;
	        case w10:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 10, 0, 19);
	        	break;
	        case w11:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 11, 0, 19);
	        	break;
	        case w12:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 12, 0, 19);
	        	break;
	        case w13:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 13, 0, 19);
	        	break;
	        case w14:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 14, 0, 19);
	        	break;
	        case w15:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 15, 0, 19);
	        	break;
	        case w16:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 16, 0, 19);
	        	break;
	        case w17:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 17, 0, 19);
	        	break;
	        case w18:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 18, 0, 19);
	        	break;
	        case w19:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 19, 0, 19);
	        	break;
	        default:                    /*COVERAGE_IGNORE*/
	    	    *pErrCode = ERR_UPER_ENCODE_WIDE; /*COVERAGE_IGNORE*/
	    	    ret = FALSE;            /*COVERAGE_IGNORE*/
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Wide_Decode(Wide* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	{
	    asn1SccSint enumIndex;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &enumIndex, 0, 19);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_WIDE;
	    if (ret) {
	        switch(enumIndex)
	        {
	            case 0:
	                (*(pVal)) = w0;
	                break;
	            case 1:
	                (*(pVal)) = w1;
	                break;
	            case 2:
	                (*(pVal)) = w2;
	                break;
	            case 3:
	                (*(pVal)) = w3;
	                break;
	            case 4:
	                (*(pVal)) = w4;
	                break;
	            case 5:
	                (*(pVal)) = w5;
	                break;
	            case 6:
	                (*(pVal)) = w6;
	                break;
	            case 7:
	                (*(pVal)) = w7;
	                break;
	            case 8:
	                (*(pVal)) = w8;
	                break;
	            case 9:
	                (*(pVal)) = w9;
	                break;
	            case 10:
	                (*(pVal)) = w10;
	                break;
	            case 11:
	                (*(pVal)) = w11;
	                break;
	            case 12:
	                (*(pVal)) = w12;
	                break;
	            case 13:
	                (*(pVal)) = w13;
	                break;
	            case 14:
	                (*(pVal)) = w14;
	                break;
	            case 15:
	                (*(pVal)) = w15;
	                break;
	            case 16:
	                (*(pVal)) = w16;
	                break;
	            case 17:
	                (*(pVal)) = w17;
	                break;
	            case 18:
	                (*(pVal)) = w18;
	                break;
	            case 19:
	                (*(pVal)) = w19;
	                break;
	            default:                        /*COVERAGE_IGNORE*/
		            *pErrCode = ERR_UPER_DECODE_WIDE;     /*COVERAGE_IGNORE*/
		            ret = FALSE;                /*COVERAGE_IGNORE*/
	        }
	    } else {
	        (*(pVal)) = w0;             /*COVERAGE_IGNORE*/
	    }
	}

	return ret  && Wide_IsConstraintValid(pVal, pErrCode);
}


flag Jmb_Equal(const Jmb* pVal1, const Jmb* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Jmb_IsConstraintValid(const Jmb* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((((((*(pVal)) == jj_1)) || (((*(pVal)) == jj_2)))) || (((*(pVal)) == jj_3)))) || (((*(pVal)) == jj_4)))) || (((*(pVal)) == jj_5)));
    *pErrCode = ret ? 0 :  ERR_JMB;

	return ret;
}

void Jmb_Initialize(Jmb* pVal)
{
	(void)pVal;


	(*(pVal)) = jj_1;
}

flag Jmb_Encode(const Jmb* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Jmb_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch((*(pVal)))
	    {
	        case jj_3:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 4);
	        	break;
	        case jj_2:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 4);
	        	break;
	        case jj_5:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 2, 0, 4);
	        	break;
	        case jj_1:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 3, 0, 4);
	        	break;
	        case jj_4:
	            BitStream_EncodeConstraintWholeNumber(pBitStrm, 4, 0, 4);
	        	break;
	        default:                    /*COVERAGE_IGNORE*/
	    	    *pErrCode = ERR_UPER_ENCODE_JMB; /*COVERAGE_IGNORE*/
	    	    ret = FALSE;            /*COVERAGE_IGNORE*/
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Jmb_Decode(Jmb* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	{
	    asn1SccSint enumIndex;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &enumIndex, 0, 4);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_JMB;
	    if (ret) {
	        switch(enumIndex)
	        {
	            case 0:
	                (*(pVal)) = jj_3;
	                break;
	            case 1:
	                (*(pVal)) = jj_2;
	                break;
	            case 2:
	                (*(pVal)) = jj_5;
	                break;
	            case 3:
	                (*(pVal)) = jj_1;
	                break;
	            case 4:
	                (*(pVal)) = jj_4;
	                break;
	            default:                        /*COVERAGE_IGNORE*/
		            *pErrCode = ERR_UPER_DECODE_JMB;     /*COVERAGE_IGNORE*/
		            ret = FALSE;                /*COVERAGE_IGNORE*/
	        }
	    } else {
	        (*(pVal)) = jj_1;             /*COVERAGE_IGNORE*/
	    }
	}

	return ret  && Jmb_IsConstraintValid(pVal, pErrCode);
}


flag SoJmb_Equal(const SoJmb* pVal1, const SoJmb* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag SoJmb_IsConstraintValid(const SoJmb* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_SOJMB;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = Jmb_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void SoJmb_Initialize(SoJmb* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 6) {
	    pVal->arr[i1] = jj_1;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag SoJmb_Encode(const SoJmb* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? SoJmb_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 6);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	ret = Jmb_Encode((&(pVal->arr[i1])), pBitStrm, pErrCode, FALSE);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SoJmb_Decode(SoJmb* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 6);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_SOJMB;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = Jmb_Decode((&(pVal->arr[i1])), pBitStrm, pErrCode);
	}

	return ret  && SoJmb_IsConstraintValid(pVal, pErrCode);
}


flag OctF_Equal(const OctF* pVal1, const OctF* pVal2)
{
	return memcmp(pVal1->arr, pVal2->arr, 7) ==0;

}

flag OctF_IsConstraintValid(const OctF* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void OctF_Initialize(OctF* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 7);


}

flag OctF_Encode(const OctF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? OctF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, 7);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag OctF_Decode(OctF* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, 7);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_OCTF;

	return ret  && OctF_IsConstraintValid(pVal, pErrCode);
}


flag OctV_Equal(const OctV* pVal1, const OctV* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OctV_IsConstraintValid(const OctV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 40);
    *pErrCode = ret ? 0 :  ERR_OCTV;

	return ret;
}

void OctV_Initialize(OctV* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 40);
	pVal->nCount = 0;

}

flag OctV_Encode(const OctV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? OctV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 40);
	    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag OctV_Decode(OctV* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 40);
	if (ret) {
	    pVal->nCount = (long)nCount;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
	}
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_OCTV;

	return ret  && OctV_IsConstraintValid(pVal, pErrCode);
}


flag OctBig_Equal(const OctBig* pVal1, const OctBig* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag OctBig_IsConstraintValid(const OctBig* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 300);
    *pErrCode = ret ? 0 :  ERR_OCTBIG;

	return ret;
}

void OctBig_Initialize(OctBig* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 300);
	pVal->nCount = 0;

}

flag OctBig_Encode(const OctBig* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? OctBig_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 300);
	    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag OctBig_Decode(OctBig* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 300);
	if (ret) {
	    pVal->nCount = (long)nCount;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
	}
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_OCTBIG;

	return ret  && OctBig_IsConstraintValid(pVal, pErrCode);
}


flag Oct1_Equal(const Oct1* pVal1, const Oct1* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag Oct1_IsConstraintValid(const Oct1* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 2));
    *pErrCode = ret ? 0 :  ERR_OCT1;

	return ret;
}

void Oct1_Initialize(Oct1* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 2);
	pVal->nCount = 1;

}

flag Oct1_Encode(const Oct1* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Oct1_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 1, 2);
	    ret = BitStream_EncodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Oct1_Decode(Oct1* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 1, 2);
	if (ret) {
	    pVal->nCount = (long)nCount;
	    ret = BitStream_DecodeOctetString_no_length(pBitStrm, pVal->arr, pVal->nCount);
	}
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_OCT1;

	return ret  && Oct1_IsConstraintValid(pVal, pErrCode);
}


flag BitF_Equal(const BitF* pVal1, const BitF* pVal2)
{
	return     (memcmp(pVal1->arr, pVal2->arr, 13/8) == 0) &&
    ((13 % 8) >0 ? (pVal1->arr[13/8]>>(8-13 % 8) == pVal2->arr[13/8]>>(8-13 % 8) ) : TRUE)
;

}

flag BitF_IsConstraintValid(const BitF* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void BitF_Initialize(BitF* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 16/8);


}

flag BitF_Encode(const BitF* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? BitF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBits(pBitStrm, pVal->arr, 13);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BitF_Decode(BitF* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = BitStream_ReadBits(pBitStrm, pVal->arr, 13);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_BITF;

	return ret  && BitF_IsConstraintValid(pVal, pErrCode);
}


flag BitV_Equal(const BitV* pVal1, const BitV* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BitV_IsConstraintValid(const BitV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 50));
    *pErrCode = ret ? 0 :  ERR_BITV;

	return ret;
}

void BitV_Initialize(BitV* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 56/8);

	pVal->nCount = 1;
}

flag BitV_Encode(const BitV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? BitV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 1, 50);
	    BitStream_AppendBits(pBitStrm, pVal->arr, pVal->nCount);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BitV_Decode(BitV* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 1, 50);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_BITV;
	if (ret) {
		pVal->nCount = (long)nCount;
		ret = BitStream_ReadBits(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_UPER_DECODE_BITV;
	}

	return ret  && BitV_IsConstraintValid(pVal, pErrCode);
}


flag BitB_Equal(const BitB* pVal1, const BitB* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag BitB_IsConstraintValid(const BitB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 200);
    *pErrCode = ret ? 0 :  ERR_BITB;

	return ret;
}

void BitB_Initialize(BitB* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 200/8);

	pVal->nCount = 0;
}

flag BitB_Encode(const BitB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? BitB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 200);
	    BitStream_AppendBits(pBitStrm, pVal->arr, pVal->nCount);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag BitB_Decode(BitB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 200);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_BITB;
	if (ret) {
		pVal->nCount = (long)nCount;
		ret = BitStream_ReadBits(pBitStrm, pVal->arr, pVal->nCount);
		*pErrCode = ret ? 0 : ERR_UPER_DECODE_BITB;
	}

	return ret  && BitB_IsConstraintValid(pVal, pErrCode);
}


flag StrV_Equal(const StrV pVal1, const StrV pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag StrV_IsConstraintValid(const StrV pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 20);
    *pErrCode = ret ? 0 :  ERR_STRV;

	return ret;
}

void StrV_Initialize(StrV pVal)
{
	(void)pVal;


	memset(pVal, ' ', 20);
	pVal[20] = 0;

}

flag StrV_Encode(const StrV pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	asn1SccSint nStringLength;
	*pErrCode = 0;
	ret = bCheckConstraints ? StrV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    nStringLength = strlen(pVal);
	    /*ret = nStringLength >= 0 && nStringLength <= 20;*/
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, 0, 20);
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal[i1], 0, 127);
	    }

    } /*COVERAGE_IGNORE*/


    return ret;
}

flag StrV_Decode(StrV pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nStringLength;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, 0, 20);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRV;
	if (ret) {
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	asn1SccSint charValue=0;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charValue, 0, 127);
	    	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRV;
	    	pVal[i1] = (char)charValue;
	    }
	    pVal[nStringLength] = 0x0;
	}

	return ret  && StrV_IsConstraintValid(pVal, pErrCode);
}


flag StrA_Equal(const StrA pVal1, const StrA pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag StrA_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((('A' <= str[i]) && (str[i] <= 'Z')));
        i = i + 1;
    }
    return ret;
}
flag StrA_IsConstraintValid(const StrA pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) == 5);
    if (ret) {
        ret = StrA_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_STRA;

	return ret;
}

void StrA_Initialize(StrA pVal)
{
	(void)pVal;


	memset(pVal, 'A', 5);
	pVal[5] = 0;

}

flag StrA_Encode(const StrA pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? StrA_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    for(i1=0; (i1 < (int)5) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4A,
	    	                                0x4B,0x4C,0x4D,0x4E,0x4F,0x50,0x51,0x52,0x53,0x54,
	    	                                0x55,0x56,0x57,0x58,0x59,0x5A};
	    	int charIndex = GetCharIndex(pVal[i1], allowedCharSet, 26);
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, 25);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag StrA_Decode(StrA pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;

	for(i1=0; (i1 < (int)5) && ret; i1++)
	{
		static byte allowedCharSet[] = {0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4A,
		                                0x4B,0x4C,0x4D,0x4E,0x4F,0x50,0x51,0x52,0x53,0x54,
		                                0x55,0x56,0x57,0x58,0x59,0x5A};
		asn1SccSint charIndex = 0;
		ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charIndex, 0, 25);
		*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRA;
		if (ret && (charIndex < 0 || charIndex > 25)) { ret = FALSE; *pErrCode = ERR_UPER_DECODE_STRA; }
		pVal[i1] = ret ? allowedCharSet[charIndex] : '\0' ;
	}
	pVal[5] = 0x0;

	return ret  && StrA_IsConstraintValid(pVal, pErrCode);
}


flag StrQ_Equal(const StrQ pVal1, const StrQ pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag StrQ_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && (((((((strchr("<", str[i])) || (strchr("\"", str[i])))) || (strchr("\\", str[i])))) || (strchr("'", str[i]))));
        i = i + 1;
    }
    return ret;
}
flag StrQ_IsConstraintValid(const StrQ pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= strlen(pVal)) && (strlen(pVal) <= 9));
    if (ret) {
        ret = StrQ_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_STRQ;

	return ret;
}

void StrQ_Initialize(StrQ pVal)
{
	(void)pVal;


	memset(pVal, '"', 9);
	pVal[9] = 0;

}

flag StrQ_Encode(const StrQ pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	asn1SccSint nStringLength;
	*pErrCode = 0;
	ret = bCheckConstraints ? StrQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    nStringLength = strlen(pVal);
	    /*ret = nStringLength >= 1 && nStringLength <= 9;*/
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, 1, 9);
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x22,0x27,0x3C,0x5C};
	    	int charIndex = GetCharIndex(pVal[i1], allowedCharSet, 4);
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, 3);
	    }

    } /*COVERAGE_IGNORE*/


    return ret;
}

flag StrQ_Decode(StrQ pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nStringLength;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, 1, 9);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRQ;
	if (ret) {
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x22,0x27,0x3C,0x5C};
	    	asn1SccSint charIndex = 0;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charIndex, 0, 3);
	    	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRQ;
	    	if (ret && (charIndex < 0 || charIndex > 3)) { ret = FALSE; *pErrCode = ERR_UPER_DECODE_STRQ; }
	    	pVal[i1] = ret ? allowedCharSet[charIndex] : '\0' ;
	    }
	    pVal[nStringLength] = 0x0;
	}

	return ret  && StrQ_IsConstraintValid(pVal, pErrCode);
}


flag StrR_Equal(const StrR pVal1, const StrR pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag StrR_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((((((('!' <= str[i]) && (str[i] <= '"'))) || ((('Z' <= str[i]) && (str[i] <= '\\'))))) || ((('\'' <= str[i]) && (str[i] <= '(')))));
        i = i + 1;
    }
    return ret;
}
flag StrR_IsConstraintValid(const StrR pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 12);
    if (ret) {
        ret = StrR_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_STRR;

	return ret;
}

void StrR_Initialize(StrR pVal)
{
	(void)pVal;


	memset(pVal, '!', 12);
	pVal[12] = 0;

}

flag StrR_Encode(const StrR pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	asn1SccSint nStringLength;
	*pErrCode = 0;
	ret = bCheckConstraints ? StrR_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    nStringLength = strlen(pVal);
	    /*ret = nStringLength >= 0 && nStringLength <= 12;*/
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, 0, 12);
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x21,0x22,0x27,0x28,0x5A,0x5B,0x5C};
	    	int charIndex = GetCharIndex(pVal[i1], allowedCharSet, 7);
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, 6);
	    }

    } /*COVERAGE_IGNORE*/


    return ret;
}

flag StrR_Decode(StrR pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nStringLength;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, 0, 12);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRR;
	if (ret) {
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x21,0x22,0x27,0x28,0x5A,0x5B,0x5C};
	    	asn1SccSint charIndex = 0;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charIndex, 0, 6);
	    	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRR;
	    	if (ret && (charIndex < 0 || charIndex > 6)) { ret = FALSE; *pErrCode = ERR_UPER_DECODE_STRR; }
	    	pVal[i1] = ret ? allowedCharSet[charIndex] : '\0' ;
	    }
	    pVal[nStringLength] = 0x0;
	}

	return ret  && StrR_IsConstraintValid(pVal, pErrCode);
}


flag StrS_Equal(const StrS pVal1, const StrS pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag StrS_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && (strchr("<>&\"';\\-", str[i]));
        i = i + 1;
    }
    return ret;
}
flag StrS_IsConstraintValid(const StrS pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((2 <= strlen(pVal)) && (strlen(pVal) <= 7));
    if (ret) {
        ret = StrS_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_STRS;

	return ret;
}

void StrS_Initialize(StrS pVal)
{
	(void)pVal;


	memset(pVal, '"', 7);
	pVal[7] = 0;

}

flag StrS_Encode(const StrS pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	asn1SccSint nStringLength;
	*pErrCode = 0;
	ret = bCheckConstraints ? StrS_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    nStringLength = strlen(pVal);
	    /*ret = nStringLength >= 2 && nStringLength <= 7;*/
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, 2, 7);
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x22,0x26,0x27,0x2D,0x3B,0x3C,0x3E,0x5C};
	    	int charIndex = GetCharIndex(pVal[i1], allowedCharSet, 8);
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, 7);
	    }

    } /*COVERAGE_IGNORE*/


    return ret;
}

flag StrS_Decode(StrS pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nStringLength;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, 2, 7);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRS;
	if (ret) {
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x22,0x26,0x27,0x2D,0x3B,0x3C,0x3E,0x5C};
	    	asn1SccSint charIndex = 0;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charIndex, 0, 7);
	    	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRS;
	    	if (ret && (charIndex < 0 || charIndex > 7)) { ret = FALSE; *pErrCode = ERR_UPER_DECODE_STRS; }
	    	pVal[i1] = ret ? allowedCharSet[charIndex] : '\0' ;
	    }
	    pVal[nStringLength] = 0x0;
	}

	return ret  && StrS_IsConstraintValid(pVal, pErrCode);
}


flag StrN_Equal(const StrN pVal1, const StrN pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag StrN_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && (strchr(" 0123456789", str[i]));
        i = i + 1;
    }
    return ret;
}
flag StrN_IsConstraintValid(const StrN pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = StrN_CharsAreValid_0(pVal);
    if (ret) {
        ret = ((1 <= strlen(pVal)) && (strlen(pVal) <= 9));
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_STRN;

	return ret;
}

void StrN_Initialize(StrN pVal)
{
	(void)pVal;


	memset(pVal, ' ', 9);
	pVal[9] = 0;

}

flag StrN_Encode(const StrN pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	asn1SccSint nStringLength;
	*pErrCode = 0;
	ret = bCheckConstraints ? StrN_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    nStringLength = strlen(pVal);
	    /*ret = nStringLength >= 1 && nStringLength <= 9;*/
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, 1, 9);
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x20,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,
	    	                                0x39};
	    	int charIndex = GetCharIndex(pVal[i1], allowedCharSet, 11);
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, 10);
	    }

    } /*COVERAGE_IGNORE*/


    return ret;
}

flag StrN_Decode(StrN pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nStringLength;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, 1, 9);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRN;
	if (ret) {
	    for(i1=0; (i1 < (int)nStringLength) && ret; i1++)
	    {
	    	static byte allowedCharSet[] = {0x20,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,
	    	                                0x39};
	    	asn1SccSint charIndex = 0;
	    	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &charIndex, 0, 10);
	    	*pErrCode = ret ? 0 : ERR_UPER_DECODE_STRN;
	    	if (ret && (charIndex < 0 || charIndex > 10)) { ret = FALSE; *pErrCode = ERR_UPER_DECODE_STRN; }
	    	pVal[i1] = ret ? allowedCharSet[charIndex] : '\0' ;
	    }
	    pVal[nStringLength] = 0x0;
	}

	return ret  && StrN_IsConstraintValid(pVal, pErrCode);
}


flag Oid_Equal(const Oid* pVal1, const Oid* pVal2)
{
	return ObjectIdentifier_equal(pVal1, pVal2);

}

flag Oid_IsConstraintValid(const Oid* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ObjectIdentifier_isValid(pVal);
    *pErrCode = ret ? 0 :  ERR_OID;

	return ret;
}

void Oid_Initialize(Oid* pVal)
{
	(void)pVal;


	pVal->nCount = 0;

}

flag Oid_Encode(const Oid* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Oid_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    ObjectIdentifier_uper_encode(pBitStrm, pVal);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Oid_Decode(Oid* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = ObjectIdentifier_uper_decode(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_OID;

	return ret  && Oid_IsConstraintValid(pVal, pErrCode);
}


flag ROid_Equal(const ROid* pVal1, const ROid* pVal2)
{
	return ObjectIdentifier_equal(pVal1, pVal2);

}

flag ROid_IsConstraintValid(const ROid* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = RelativeOID_isValid(pVal);
    *pErrCode = ret ? 0 :  ERR_ROID;

	return ret;
}

void ROid_Initialize(ROid* pVal)
{
	(void)pVal;


	pVal->nCount = 0;

}

flag ROid_Encode(const ROid* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? ROid_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    RelativeOID_uper_encode(pBitStrm, pVal);
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag ROid_Decode(ROid* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;


	ret = RelativeOID_uper_decode(pBitStrm, pVal);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_ROID;

	return ret  && ROid_IsConstraintValid(pVal, pErrCode);
}


flag Nums_Equal(const Nums* pVal1, const Nums* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->n_a == pVal2->n_a);

    if (ret) {
        ret = (pVal1->n_b == pVal2->n_b);

        if (ret) {
            ret = (pVal1->n_c == pVal2->n_c);

            if (ret) {
                ret = (pVal1->n_d == pVal2->n_d);

                if (ret) {
                    ret = (pVal1->n_e == pVal2->n_e);

                    if (ret) {
                        ret = (pVal1->n_f == pVal2->n_f);

                        if (ret) {
                            ret = (pVal1->n_g == pVal2->n_g);

                            if (ret) {
                                ret = (Asn1Real_Equal(pVal1->n_h,pVal2->n_h));

                                if (ret) {
                                    ret = (pVal1->n_i == pVal2->n_i);

                                    if (ret) {
                                        ret = Oid_Equal((&(pVal1->n_o)), (&(pVal2->n_o)));

                                        if (ret) {
                                            ret = (pVal1->exist.n_p == pVal2->exist.n_p);
                                            if (ret && pVal1->exist.n_p) {
                                            	ret = ROid_Equal((&(pVal1->n_p)), (&(pVal2->n_p)));
                                            }

                                            if (ret) {
                                                ret = Oct1_Equal((&(pVal1->n_q)), (&(pVal2->n_q)));

                                            }

                                        }

                                    }

                                }

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag Nums_IsConstraintValid(const Nums* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = I32_IsConstraintValid((&(pVal->n_a)), pErrCode);
    if (ret) {
        ret = U32_IsConstraintValid((&(pVal->n_b)), pErrCode);
        if (ret) {
            ret = I17_IsConstraintValid((&(pVal->n_c)), pErrCode);
            if (ret) {
                ret = SemiN_IsConstraintValid((&(pVal->n_d)), pErrCode);
                if (ret) {
                    ret = UpTo_IsConstraintValid((&(pVal->n_e)), pErrCode);
                    if (ret) {
                        ret = U1_IsConstraintValid((&(pVal->n_f)), pErrCode);
                        if (ret) {
                            ret = Wide_IsConstraintValid((&(pVal->n_g)), pErrCode);
                            if (ret) {
                                ret = RlC_IsConstraintValid((&(pVal->n_h)), pErrCode);
                                if (ret) {
                                    ret = U8_IsConstraintValid((&(pVal->n_i)), pErrCode);
                                    if (ret) {
                                        ret = Oid_IsConstraintValid((&(pVal->n_o)), pErrCode);
                                        if (ret) {
                                            if (pVal->exist.n_p) {
                                            	ret = ROid_IsConstraintValid((&(pVal->n_p)), pErrCode);
                                            }
                                            if (ret) {
                                                ret = Oct1_IsConstraintValid((&(pVal->n_q)), pErrCode);
                                            }   /*COVERAGE_IGNORE*/
                                        }   /*COVERAGE_IGNORE*/
                                    }   /*COVERAGE_IGNORE*/
                                }   /*COVERAGE_IGNORE*/
                            }   /*COVERAGE_IGNORE*/
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Nums_Initialize(Nums* pVal)
{
	(void)pVal;


	/*set n_a */
	I32_Initialize((&(pVal->n_a)));
	/*set n_b */
	U32_Initialize((&(pVal->n_b)));
	/*set n_c */
	I17_Initialize((&(pVal->n_c)));
	/*set n_d */
	SemiN_Initialize((&(pVal->n_d)));
	/*set n_e */
	UpTo_Initialize((&(pVal->n_e)));
	/*set n_f */
	U1_Initialize((&(pVal->n_f)));
	/*set n_g */
	Wide_Initialize((&(pVal->n_g)));
	/*set n_h */
	RlC_Initialize((&(pVal->n_h)));
	/*set n_i */
	U8_Initialize((&(pVal->n_i)));
	/*set n_o */
	Oid_Initialize((&(pVal->n_o)));
	/*set n_p */
	pVal->exist.n_p = 1;
	ROid_Initialize((&(pVal->n_p)));
	/*set n_q */
	Oct1_Initialize((&(pVal->n_q)));
}

flag Nums_Encode(const Nums* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Nums_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.n_p);
	    if (ret) {
	        /*Encode n_a */
	        ret = I32_Encode((&(pVal->n_a)), pBitStrm, pErrCode, FALSE);
	        if (ret) {
	            /*Encode n_b */
	            ret = U32_Encode((&(pVal->n_b)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode n_c */
	                ret = I17_Encode((&(pVal->n_c)), pBitStrm, pErrCode, FALSE);
	                if (ret) {
	                    /*Encode n_d */
	                    ret = SemiN_Encode((&(pVal->n_d)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode n_e */
	                        ret = UpTo_Encode((&(pVal->n_e)), pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode n_f */
	                            ret = U1_Encode((&(pVal->n_f)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode n_g */
	                                ret = Wide_Encode((&(pVal->n_g)), pBitStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    /*Encode n_h */
	                                    ret = RlC_Encode((&(pVal->n_h)), pBitStrm, pErrCode, FALSE);
	                                    if (ret) {
	                                        /*Encode n_i */
	                                        ret = U8_Encode((&(pVal->n_i)), pBitStrm, pErrCode, FALSE);
	                                        if (ret) {
	                                            /*Encode n_o */
	                                            ret = Oid_Encode((&(pVal->n_o)), pBitStrm, pErrCode, FALSE);
	                                            if (ret) {
	                                                /*Encode n_p */
	                                                if (pVal->exist.n_p) {
	                                                	ret = ROid_Encode((&(pVal->n_p)), pBitStrm, pErrCode, FALSE);
	                                                }
	                                                if (ret) {
	                                                    /*Encode n_q */
	                                                    ret = Oct1_Encode((&(pVal->n_q)), pBitStrm, pErrCode, FALSE);
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Nums_Decode(Nums* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag presenceBit;

	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	pVal->exist.n_p = presenceBit == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_NUMS;
	if (ret) {
	    /*Decode n_a */
	    ret = I32_Decode((&(pVal->n_a)), pBitStrm, pErrCode);
	    if (ret) {
	        /*Decode n_b */
	        ret = U32_Decode((&(pVal->n_b)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode n_c */
	            ret = I17_Decode((&(pVal->n_c)), pBitStrm, pErrCode);
	            if (ret) {
	                /*Decode n_d */
	                ret = SemiN_Decode((&(pVal->n_d)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode n_e */
	                    ret = UpTo_Decode((&(pVal->n_e)), pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode n_f */
	                        ret = U1_Decode((&(pVal->n_f)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode n_g */
	                            ret = Wide_Decode((&(pVal->n_g)), pBitStrm, pErrCode);
	                            if (ret) {
	                                /*Decode n_h */
	                                ret = RlC_Decode((&(pVal->n_h)), pBitStrm, pErrCode);
	                                if (ret) {
	                                    /*Decode n_i */
	                                    ret = U8_Decode((&(pVal->n_i)), pBitStrm, pErrCode);
	                                    if (ret) {
	                                        /*Decode n_o */
	                                        ret = Oid_Decode((&(pVal->n_o)), pBitStrm, pErrCode);
	                                        if (ret) {
	                                            /*Decode n_p */
	                                            if (pVal->exist.n_p) {
	                                            	ret = ROid_Decode((&(pVal->n_p)), pBitStrm, pErrCode);
	                                            }
	                                            if (ret) {
	                                                /*Decode n_q */
	                                                ret = Oct1_Decode((&(pVal->n_q)), pBitStrm, pErrCode);
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && Nums_IsConstraintValid(pVal, pErrCode);
}


flag Nul_Equal(const Nul* pVal1, const Nul* pVal2)
{
	(void)pVal1;
	(void)pVal2;
	return TRUE;

}

void Nul_Initialize(Nul* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}

flag Nul_Encode(const Nul* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)pBitStrm;


    *pErrCode = 0;
    (void)bCheckConstraints;



    return ret;
}

flag Nul_Decode(Nul* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;
	(void)pVal;
	(void)pBitStrm;



	return ret ;
}


flag Chc_c_a_Equal(const Chc_c_a* pVal1, const Chc_c_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Chc_Equal(const Chc* pVal1, const Chc* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case c_a_PRESENT:
    		ret = Chc_c_a_Equal((&(pVal1->u.c_a)), (&(pVal2->u.c_a)));
    		break;
    	case c_b_PRESENT:
    		ret = (pVal1->u.c_b == pVal2->u.c_b);
    		break;
    	case c_c_PRESENT:
    		ret = OctV_Equal((&(pVal1->u.c_c)), (&(pVal2->u.c_c)));
    		break;
    	case c_d_PRESENT:
    		ret = (strcmp(pVal1->u.c_d, pVal2->u.c_d) == 0);
    		break;
    	case c_e_PRESENT:
    		ret = (Asn1Real_Equal(pVal1->u.c_e,pVal2->u.c_e));
    		break;
    	case c_f_PRESENT:
    		ret = Pt_Equal((&(pVal1->u.c_f)), (&(pVal2->u.c_f)));
    		break;
    	case c_g_PRESENT:
    		ret = TRUE;
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag Chc_c_a_IsConstraintValid(const Chc_c_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_CHC_C_A;

	return ret;
}

flag Chc_IsConstraintValid(const Chc* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case c_a_PRESENT : 
            ret = Chc_c_a_IsConstraintValid((&(pVal->u.c_a)), pErrCode);
            break;          
        case c_b_PRESENT : /*COVERAGE_IGNORE*/
            ret = TRUE;
            *pErrCode = 0;
            break;          /*COVERAGE_IGNORE*/
        case c_c_PRESENT : 
            ret = OctV_IsConstraintValid((&(pVal->u.c_c)), pErrCode);
            break;          
        case c_d_PRESENT : 
            ret = StrV_IsConstraintValid(pVal->u.c_d, pErrCode);
            break;          
        case c_e_PRESENT : 
            ret = Rl_IsConstraintValid((&(pVal->u.c_e)), pErrCode);
            break;          
        case c_f_PRESENT : 
            ret = Pt_IsConstraintValid((&(pVal->u.c_f)), pErrCode);
            break;          
        case c_g_PRESENT : /*COVERAGE_IGNORE*/
            ret = TRUE;
            *pErrCode = 0;
            break;          /*COVERAGE_IGNORE*/
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_CHC;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void Chc_c_a_Initialize(Chc_c_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Chc_Initialize(Chc* pVal)
{
	(void)pVal;


	pVal->kind = c_a_PRESENT;
	Chc_c_a_Initialize((&(pVal->u.c_a)));
}

flag Chc_Encode(const Chc* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Chc_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch(pVal->kind)
	    {
	    case c_a_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 6);
	    	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->u.c_a), 0, 3);
	    	break;
	    case c_b_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 6);
	    	BitStream_AppendBit(pBitStrm,pVal->u.c_b);
	    	break;
	    case c_c_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 2, 0, 6);
	    	ret = OctV_Encode((&(pVal->u.c_c)), pBitStrm, pErrCode, FALSE);
	    	break;
	    case c_d_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 3, 0, 6);
	    	ret = StrV_Encode(pVal->u.c_d, pBitStrm, pErrCode, FALSE);
	    	break;
	    case c_e_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 4, 0, 6);
	    	ret = Rl_Encode((&(pVal->u.c_e)), pBitStrm, pErrCode, FALSE);
	    	break;
	    case c_f_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 5, 0, 6);
	    	ret = Pt_Encode((&(pVal->u.c_f)), pBitStrm, pErrCode, FALSE);
	    	break;
	    case c_g_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 6, 0, 6);
	    	ret = Nul_Encode((&(pVal->u.c_g)), pBitStrm, pErrCode, FALSE);
	    	break;
	    default:                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_UPER_ENCODE_CHC;         /*COVERAGE_IGNORE*/
	        ret = FALSE;                    /*COVERAGE_IGNORE*/
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Chc_Decode(Chc* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint Chc_index_tmp;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &Chc_index_tmp, 0, 6);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CHC;
	if (ret) {
	    switch(Chc_index_tmp)
	    {
	    case 0:
	    	pVal->kind = c_a_PRESENT;
	    	ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->u.c_a)), 0, 3);
	    	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CHC_C_A;
	    	break;
	    case 1:
	    	pVal->kind = c_b_PRESENT;
	    	ret = BitStream_ReadBit(pBitStrm, (&(pVal->u.c_b)));
	    	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CHC_C_B;
	    	break;
	    case 2:
	    	pVal->kind = c_c_PRESENT;
	    	ret = OctV_Decode((&(pVal->u.c_c)), pBitStrm, pErrCode);
	    	break;
	    case 3:
	    	pVal->kind = c_d_PRESENT;
	    	ret = StrV_Decode(pVal->u.c_d, pBitStrm, pErrCode);
	    	break;
	    case 4:
	    	pVal->kind = c_e_PRESENT;
	    	ret = Rl_Decode((&(pVal->u.c_e)), pBitStrm, pErrCode);
	    	break;
	    case 5:
	    	pVal->kind = c_f_PRESENT;
	    	ret = Pt_Decode((&(pVal->u.c_f)), pBitStrm, pErrCode);
	    	break;
	    case 6:
	    	pVal->kind = c_g_PRESENT;
	    	ret = Nul_Decode((&(pVal->u.c_g)), pBitStrm, pErrCode);
	    	break;
	    default:                        /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_UPER_DECODE_CHC;     /*COVERAGE_IGNORE*/
	        ret = FALSE;                /*COVERAGE_IGNORE*/
	    }
	}  /*COVERAGE_IGNORE*/

	return ret  && Chc_IsConstraintValid(pVal, pErrCode);
}


flag Chc2_Equal(const Chc2* pVal1, const Chc2* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case d_a_PRESENT:
    		ret = Chc_Equal((&(pVal1->u.d_a)), (&(pVal2->u.d_a)));
    		break;
    	case d_b_PRESENT:
    		ret = SoPt_Equal((&(pVal1->u.d_b)), (&(pVal2->u.d_b)));
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag Chc2_IsConstraintValid(const Chc2* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case d_a_PRESENT : 
            ret = Chc_IsConstraintValid((&(pVal->u.d_a)), pErrCode);
            break;          
        case d_b_PRESENT : 
            ret = SoPt_IsConstraintValid((&(pVal->u.d_b)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_CHC2;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void Chc2_Initialize(Chc2* pVal)
{
	(void)pVal;


	pVal->kind = d_a_PRESENT;
	Chc_Initialize((&(pVal->u.d_a)));
}

flag Chc2_Encode(const Chc2* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Chc2_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    switch(pVal->kind)
	    {
	    case d_a_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 1);
	    	ret = Chc_Encode((&(pVal->u.d_a)), pBitStrm, pErrCode, FALSE);
	    	break;
	    case d_b_PRESENT:
	    	BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 1);
	    	ret = SoPt_Encode((&(pVal->u.d_b)), pBitStrm, pErrCode, FALSE);
	    	break;
	    default:                            /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_UPER_ENCODE_CHC2;         /*COVERAGE_IGNORE*/
	        ret = FALSE;                    /*COVERAGE_IGNORE*/
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Chc2_Decode(Chc2* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint Chc2_index_tmp;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &Chc2_index_tmp, 0, 1);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CHC2;
	if (ret) {
	    switch(Chc2_index_tmp)
	    {
	    case 0:
	    	pVal->kind = d_a_PRESENT;
	    	ret = Chc_Decode((&(pVal->u.d_a)), pBitStrm, pErrCode);
	    	break;
	    case 1:
	    	pVal->kind = d_b_PRESENT;
	    	ret = SoPt_Decode((&(pVal->u.d_b)), pBitStrm, pErrCode);
	    	break;
	    default:                        /*COVERAGE_IGNORE*/
	        *pErrCode = ERR_UPER_DECODE_CHC2;     /*COVERAGE_IGNORE*/
	        ret = FALSE;                /*COVERAGE_IGNORE*/
	    }
	}  /*COVERAGE_IGNORE*/

	return ret  && Chc2_IsConstraintValid(pVal, pErrCode);
}


flag CnV_p_Equal(const CnV_p* pVal1, const CnV_p* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag CnV_Equal(const CnV* pVal1, const CnV* pVal2)
{
	flag ret=TRUE;

    ret = CnV_p_Equal((&(pVal1->p)), (&(pVal2->p)));

    if (ret) {
        ret = (pVal1->exist.c == pVal2->exist.c);
        if (ret && pVal1->exist.c) {
        	ret = OctBig_Equal((&(pVal1->c)), (&(pVal2->c)));
        }

        if (ret) {
            ret = Chc_Equal((&(pVal1->d)), (&(pVal2->d)));

        }

    }

	return ret;

}

flag CnV_p_IsConstraintValid(const CnV_p* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_CNV_P;

	return ret;
}

flag CnV_IsConstraintValid(const CnV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = CnV_p_IsConstraintValid((&(pVal->p)), pErrCode);
    if (ret) {
        if (pVal->exist.c) {
        	ret = OctBig_IsConstraintValid((&(pVal->c)), pErrCode);
        }
        if (ret) {
            ret = Chc_IsConstraintValid((&(pVal->d)), pErrCode);
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void CnV_p_Initialize(CnV_p* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void CnV_Initialize(CnV* pVal)
{
	(void)pVal;


	/*set p */
	CnV_p_Initialize((&(pVal->p)));
	/*set c */
	pVal->exist.c = 1;
	OctBig_Initialize((&(pVal->c)));
	/*set d */
	Chc_Initialize((&(pVal->d)));
}

flag CnV_Encode(const CnV* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? CnV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.c);
	    if (ret) {
	        /*Encode p */
	        BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->p), 0, 7);
	        if (ret) {
	            /*Encode c */
	            if (pVal->exist.c) {
	            	/*open new scope to declare some variables*/
	            	{
	            		/*encode to a temporary bitstream*/
	            		byte arr[OctBig_REQUIRED_BYTES_FOR_ENCODING];
	            		BitStream bitStrm;
	            		BitStream_Init(&bitStrm, arr, sizeof(arr));

	            		ret = OctBig_Encode((&(pVal->c)), &bitStrm, pErrCode, FALSE);
	            		if (ret) {
	            			int nCount = bitStrm.currentBit == 0 ? bitStrm.currentByte : (bitStrm.currentByte + 1);
	            			ret = BitStream_EncodeOctetString(pBitStrm, arr, nCount, 2, 302);
	            		}
	            	}
	            }
	            if (ret) {
	                /*Encode d */
	                /*open new scope to declare some variables*/
	                {
	                	/*encode to a temporary bitstream*/
	                	byte arr[Chc_REQUIRED_BYTES_FOR_ENCODING];
	                	BitStream bitStrm;
	                	BitStream_Init(&bitStrm, arr, sizeof(arr));

	                	ret = Chc_Encode((&(pVal->d)), &bitStrm, pErrCode, FALSE);
	                	if (ret) {
	                		int nCount = bitStrm.currentByte*8 + bitStrm.currentBit;
	                		ret = BitStream_EncodeBitString(pBitStrm, arr, nCount, 3, 329);
	                	}
	                }
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag CnV_Decode(CnV* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag presenceBit;

	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	pVal->exist.c = presenceBit == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_CNV;
	if (ret) {
	    /*Decode p */
	    ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->p)), 0, 7);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_CNV_P;
	    if (ret) {
	        /*Decode c */
	        if (pVal->exist.c) {
	        	/*open new scope to declare some variables*/
	        	{
	        		/*decode to a temporary bitstream*/
	        		byte arr[OctBig_REQUIRED_BYTES_FOR_ENCODING];
	        		BitStream bitStrm;
	        		BitStream_Init(&bitStrm, arr, sizeof(arr));
	        		int nCount;
	        		ret = BitStream_DecodeOctetString(pBitStrm, arr, &nCount, 2, 302);
	        		*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	        		if (ret) {
	        			bitStrm.count = nCount;
	        			ret = OctBig_Decode((&(pVal->c)), &bitStrm, pErrCode);
	        		}
	        	}
	        }
	        if (ret) {
	            /*Decode d */
	            /*open new scope to declare some variables*/
	            {
	            	/*decode to a temporary bitstream*/
	            	byte arr[Chc_REQUIRED_BYTES_FOR_ENCODING];
	            	BitStream bitStrm;
	            	BitStream_Init(&bitStrm, arr, sizeof(arr));
	            	int nCount;
	            	ret = BitStream_DecodeBitString(pBitStrm, arr, &nCount, 3, 329);
	            	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
	            	if (ret) {
	            		bitStrm.count = (nCount + 7) / 8;
	            		ret = Chc_Decode((&(pVal->d)), &bitStrm, pErrCode);
	            	}
	            }
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && CnV_IsConstraintValid(pVal, pErrCode);
}


flag SoInt_elem_Equal(const SoInt_elem* pVal1, const SoInt_elem* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag SoInt_Equal(const SoInt* pVal1, const SoInt* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = SoInt_elem_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag SoInt_elem_IsConstraintValid(const SoInt_elem* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 1000UL);
    *pErrCode = ret ? 0 :  ERR_SOINT_ELM;

	return ret;
}

flag SoInt_IsConstraintValid(const SoInt* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 12);
    *pErrCode = ret ? 0 :  ERR_SOINT;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = SoInt_elem_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void SoInt_elem_Initialize(SoInt_elem* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void SoInt_Initialize(SoInt* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 12) {
	    SoInt_elem_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag SoInt_Encode(const SoInt* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? SoInt_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 12);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->arr[i1]), 0, 1000);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SoInt_Decode(SoInt* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 12);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_SOINT;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = BitStream_DecodeConstraintPosWholeNumberUInt16(pBitStrm, (&(pVal->arr[i1])), 0, 1000);
		*pErrCode = ret ? 0 : ERR_UPER_DECODE_SOINT_ELM;
	}

	return ret  && SoInt_IsConstraintValid(pVal, pErrCode);
}


flag SoSo_Equal(const SoSo* pVal1, const SoSo* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = SoInt_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag SoSo_IsConstraintValid(const SoSo* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 3));
    *pErrCode = ret ? 0 :  ERR_SOSO;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = SoInt_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void SoSo_Initialize(SoSo* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    SoInt_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 1;
}

flag SoSo_Encode(const SoSo* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? SoSo_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 1, 3);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	ret = SoInt_Encode((&(pVal->arr[i1])), pBitStrm, pErrCode, FALSE);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SoSo_Decode(SoSo* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 1, 3);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_SOSO;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = SoInt_Decode((&(pVal->arr[i1])), pBitStrm, pErrCode);
	}

	return ret  && SoSo_IsConstraintValid(pVal, pErrCode);
}


flag Rec_Equal(const Rec* pVal1, const Rec* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->f_b == pVal2->f_b);

    if (ret) {
        ret = (pVal1->f_i1 == pVal2->f_i1);

        if (ret) {
            ret = (pVal1->exist.f_big == pVal2->exist.f_big);
            if (ret && pVal1->exist.f_big) {
            	ret = (pVal1->f_big == pVal2->f_big);
            }

            if (ret) {
                ret = (pVal1->f_semi == pVal2->f_semi);

                if (ret) {
                    ret = (pVal1->exist.f_col == pVal2->exist.f_col);
                    if (ret && pVal1->exist.f_col) {
                    	ret = (pVal1->f_col == pVal2->f_col);
                    }

                    if (ret) {
                        ret = OctF_Equal((&(pVal1->f_ofx)), (&(pVal2->f_ofx)));

                        if (ret) {
                            ret = OctV_Equal((&(pVal1->f_ov)), (&(pVal2->f_ov)));

                            if (ret) {
                                ret = (pVal1->exist.f_bf == pVal2->exist.f_bf);
                                if (ret && pVal1->exist.f_bf) {
                                	ret = BitF_Equal((&(pVal1->f_bf)), (&(pVal2->f_bf)));
                                }

                                if (ret) {
                                    ret = BitV_Equal((&(pVal1->f_bv)), (&(pVal2->f_bv)));

                                    if (ret) {
                                        ret = (strcmp(pVal1->f_s, pVal2->f_s) == 0);

                                        if (ret) {
                                            ret = (strcmp(pVal1->f_sa, pVal2->f_sa) == 0);

                                            if (ret) {
                                                ret = Chc_Equal((&(pVal1->f_ch)), (&(pVal2->f_ch)));

                                                if (ret) {
                                                    ret = SoInt_Equal((&(pVal1->f_so)), (&(pVal2->f_so)));

                                                    if (ret) {
                                                        ret = (Asn1Real_Equal(pVal1->f_r,pVal2->f_r));

                                                        if (ret) {
                                                            ret = (pVal1->exist.f_sn == pVal2->exist.f_sn);
                                                            if (ret && pVal1->exist.f_sn) {
                                                            	ret = (strcmp(pVal1->f_sn, pVal2->f_sn) == 0);
                                                            }

                                                            if (ret) {
                                                                ret = (pVal1->exist.f_u24 == pVal2->exist.f_u24);
                                                                if (ret && pVal1->exist.f_u24) {
                                                                	ret = (pVal1->f_u24 == pVal2->f_u24);
                                                                }

                                                            }

                                                        }

                                                    }

                                                }

                                            }

                                        }

                                    }

                                }

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag Rec_IsConstraintValid(const Rec* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Flg_IsConstraintValid((&(pVal->f_b)), pErrCode);
    if (ret) {
        ret = I5_IsConstraintValid((&(pVal->f_i1)), pErrCode);
        if (ret) {
            if (pVal->exist.f_big) {
            	ret = Big_IsConstraintValid((&(pVal->f_big)), pErrCode);
            }
            if (ret) {
                ret = Semi_IsConstraintValid((&(pVal->f_semi)), pErrCode);
                if (ret) {
                    if (pVal->exist.f_col) {
                    	ret = Col_IsConstraintValid((&(pVal->f_col)), pErrCode);
                    }
                    if (ret) {
                        ret = OctF_IsConstraintValid((&(pVal->f_ofx)), pErrCode);
                        if (ret) {
                            ret = OctV_IsConstraintValid((&(pVal->f_ov)), pErrCode);
                            if (ret) {
                                if (pVal->exist.f_bf) {
                                	ret = BitF_IsConstraintValid((&(pVal->f_bf)), pErrCode);
                                }
                                if (ret) {
                                    ret = BitV_IsConstraintValid((&(pVal->f_bv)), pErrCode);
                                    if (ret) {
                                        ret = StrV_IsConstraintValid(pVal->f_s, pErrCode);
                                        if (ret) {
                                            ret = StrA_IsConstraintValid(pVal->f_sa, pErrCode);
                                            if (ret) {
                                                ret = Chc_IsConstraintValid((&(pVal->f_ch)), pErrCode);
                                                if (ret) {
                                                    ret = SoInt_IsConstraintValid((&(pVal->f_so)), pErrCode);
                                                    if (ret) {
                                                        ret = Rl_IsConstraintValid((&(pVal->f_r)), pErrCode);
                                                        if (ret) {
                                                            if (pVal->exist.f_sn) {
                                                            	ret = StrN_IsConstraintValid(pVal->f_sn, pErrCode);
                                                            }
                                                            if (ret) {
                                                                if (pVal->exist.f_u24) {
                                                                	ret = U24_IsConstraintValid((&(pVal->f_u24)), pErrCode);
                                                                }
                                                            }   /*COVERAGE_IGNORE*/
                                                        }   /*COVERAGE_IGNORE*/
                                                    }   /*COVERAGE_IGNORE*/
                                                }   /*COVERAGE_IGNORE*/
                                            }   /*COVERAGE_IGNORE*/
                                        }   /*COVERAGE_IGNORE*/
                                    }   /*COVERAGE_IGNORE*/
                                }   /*COVERAGE_IGNORE*/
                            }   /*COVERAGE_IGNORE*/
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Rec_Initialize(Rec* pVal)
{
	(void)pVal;


	/*set f_b */
	Flg_Initialize((&(pVal->f_b)));
	/*set f_i1 */
	I5_Initialize((&(pVal->f_i1)));
	/*set f_big */
	pVal->exist.f_big = 1;
	Big_Initialize((&(pVal->f_big)));
	/*set f_semi */
	Semi_Initialize((&(pVal->f_semi)));
	/*set f_col */
	pVal->exist.f_col = 1;
	pVal->f_col = green;
	/*set f_ofx */
	OctF_Initialize((&(pVal->f_ofx)));
	/*set f_ov */
	OctV_Initialize((&(pVal->f_ov)));
	/*set f_bf */
	pVal->exist.f_bf = 1;
	BitF_Initialize((&(pVal->f_bf)));
	/*set f_bv */
	BitV_Initialize((&(pVal->f_bv)));
	/*set f_s */
	StrV_Initialize(pVal->f_s);
	/*set f_sa */
	StrA_Initialize(pVal->f_sa);
	/*set f_ch */
	Chc_Initialize((&(pVal->f_ch)));
	/*set f_so */
	SoInt_Initialize((&(pVal->f_so)));
	/*set f_r */
	Rl_Initialize((&(pVal->f_r)));
	/*set f_sn */
	pVal->exist.f_sn = 1;
	StrN_Initialize(pVal->f_sn);
	/*set f_u24 */
	pVal->exist.f_u24 = 1;
	pVal->f_u24 = 77UL;
}

flag Rec_Encode(const Rec* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Rec_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.f_big);
	    if (ret) {
	        BitStream_AppendBit(pBitStrm,pVal->exist.f_col);
	        if (ret) {
	            BitStream_AppendBit(pBitStrm,pVal->exist.f_bf);
	            if (ret) {
	                BitStream_AppendBit(pBitStrm,pVal->exist.f_sn);
	                if (ret) {
	                    BitStream_AppendBit(pBitStrm,pVal->exist.f_u24);
	                    if (ret) {
	                        /*Encode f_b */
	                        ret = Flg_Encode((&(pVal->f_b)), pBitStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode f_i1 */
	                            ret = I5_Encode((&(pVal->f_i1)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode f_big */
	                                if (pVal->exist.f_big) {
	                                	ret = Big_Encode((&(pVal->f_big)), pBitStrm, pErrCode, FALSE);
	                                }
	                                if (ret) {
	                                    /*Encode f_semi */
	                                    ret = Semi_Encode((&(pVal->f_semi)), pBitStrm, pErrCode, FALSE);
	                                    if (ret) {
	                                        /*Encode f_col */
	                                        if (pVal->exist.f_col) {
	                                        	ret = Col_Encode((&(pVal->f_col)), pBitStrm, pErrCode, FALSE);
	                                        }
	                                        if (ret) {
	                                            /*Encode f_ofx */
	                                            ret = OctF_Encode((&(pVal->f_ofx)), pBitStrm, pErrCode, FALSE);
	                                            if (ret) {
	                                                /*Encode f_ov */
	                                                ret = OctV_Encode((&(pVal->f_ov)), pBitStrm, pErrCode, FALSE);
	                                                if (ret) {
	                                                    /*Encode f_bf */
	                                                    if (pVal->exist.f_bf) {
	                                                    	ret = BitF_Encode((&(pVal->f_bf)), pBitStrm, pErrCode, FALSE);
	                                                    }
	                                                    if (ret) {
	                                                        /*Encode f_bv */
	                                                        ret = BitV_Encode((&(pVal->f_bv)), pBitStrm, pErrCode, FALSE);
	                                                        if (ret) {
	                                                            /*Encode f_s */
	                                                            ret = StrV_Encode(pVal->f_s, pBitStrm, pErrCode, FALSE);
	                                                            if (ret) {
	                                                                /*Encode f_sa */
	                                                                ret = StrA_Encode(pVal->f_sa, pBitStrm, pErrCode, FALSE);
	                                                                if (ret) {
	                                                                    /*Encode f_ch */
	                                                                    ret = Chc_Encode((&(pVal->f_ch)), pBitStrm, pErrCode, FALSE);
	                                                                    if (ret) {
	                                                                        /*Encode f_so */
	                                                                        ret = SoInt_Encode((&(pVal->f_so)), pBitStrm, pErrCode, FALSE);
	                                                                        if (ret) {
	                                                                            /*Encode f_r */
	                                                                            ret = Rl_Encode((&(pVal->f_r)), pBitStrm, pErrCode, FALSE);
	                                                                            if (ret) {
	                                                                                /*Encode f_sn */
	                                                                                if (pVal->exist.f_sn) {
	                                                                                	ret = StrN_Encode(pVal->f_sn, pBitStrm, pErrCode, FALSE);
	                                                                                }
	                                                                                if (ret) {
	                                                                                    /*Encode f_u24 */
	                                                                                    if (pVal->exist.f_u24) {
	                                                                                    	ret = U24_Encode((&(pVal->f_u24)), pBitStrm, pErrCode, FALSE);
	                                                                                    }
	                                                                                }   /*COVERAGE_IGNORE*/
	                                                                            }   /*COVERAGE_IGNORE*/
	                                                                        }   /*COVERAGE_IGNORE*/
	                                                                    }   /*COVERAGE_IGNORE*/
	                                                                }   /*COVERAGE_IGNORE*/
	                                                            }   /*COVERAGE_IGNORE*/
	                                                        }   /*COVERAGE_IGNORE*/
	                                                    }   /*COVERAGE_IGNORE*/
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Rec_Decode(Rec* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag presenceBit;

	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	pVal->exist.f_big = presenceBit == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_REC;
	if (ret) {
	    ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	    pVal->exist.f_col = presenceBit == 0 ? 0 : 1;
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_REC;
	    if (ret) {
	        ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	        pVal->exist.f_bf = presenceBit == 0 ? 0 : 1;
	        *pErrCode = ret ? 0 : ERR_UPER_DECODE_REC;
	        if (ret) {
	            ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	            pVal->exist.f_sn = presenceBit == 0 ? 0 : 1;
	            *pErrCode = ret ? 0 : ERR_UPER_DECODE_REC;
	            if (ret) {
	                ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	                pVal->exist.f_u24 = presenceBit == 0 ? 0 : 1;
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_REC;
	                if (ret) {
	                    /*Decode f_b */
	                    ret = Flg_Decode((&(pVal->f_b)), pBitStrm, pErrCode);
	                    if (ret) {
	                        /*Decode f_i1 */
	                        ret = I5_Decode((&(pVal->f_i1)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode f_big */
	                            if (pVal->exist.f_big) {
	                            	ret = Big_Decode((&(pVal->f_big)), pBitStrm, pErrCode);
	                            }
	                            if (ret) {
	                                /*Decode f_semi */
	                                ret = Semi_Decode((&(pVal->f_semi)), pBitStrm, pErrCode);
	                                if (ret) {
	                                    /*Decode f_col */
	                                    if (pVal->exist.f_col) {
	                                    	ret = Col_Decode((&(pVal->f_col)), pBitStrm, pErrCode);
	                                    } else {
	                                        pVal->f_col = green;
	                                    }
	                                    if (ret) {
	                                        /*Decode f_ofx */
	                                        ret = OctF_Decode((&(pVal->f_ofx)), pBitStrm, pErrCode);
	                                        if (ret) {
	                                            /*Decode f_ov */
	                                            ret = OctV_Decode((&(pVal->f_ov)), pBitStrm, pErrCode);
	                                            if (ret) {
	                                                /*Decode f_bf */
	                                                if (pVal->exist.f_bf) {
	                                                	ret = BitF_Decode((&(pVal->f_bf)), pBitStrm, pErrCode);
	                                                }
	                                                if (ret) {
	                                                    /*Decode f_bv */
	                                                    ret = BitV_Decode((&(pVal->f_bv)), pBitStrm, pErrCode);
	                                                    if (ret) {
	                                                        /*Decode f_s */
	                                                        ret = StrV_Decode(pVal->f_s, pBitStrm, pErrCode);
	                                                        if (ret) {
	                                                            /*Decode f_sa */
	                                                            ret = StrA_Decode(pVal->f_sa, pBitStrm, pErrCode);
	                                                            if (ret) {
	                                                                /*Decode f_ch */
	                                                                ret = Chc_Decode((&(pVal->f_ch)), pBitStrm, pErrCode);
	                                                                if (ret) {
	                                                                    /*Decode f_so */
	                                                                    ret = SoInt_Decode((&(pVal->f_so)), pBitStrm, pErrCode);
	                                                                    if (ret) {
	                                                                        /*Decode f_r */
	                                                                        ret = Rl_Decode((&(pVal->f_r)), pBitStrm, pErrCode);
	                                                                        if (ret) {
	                                                                            /*Decode f_sn */
	                                                                            if (pVal->exist.f_sn) {
	                                                                            	ret = StrN_Decode(pVal->f_sn, pBitStrm, pErrCode);
	                                                                            }
	                                                                            if (ret) {
	                                                                                /*Decode f_u24 */
	                                                                                if (pVal->exist.f_u24) {
	                                                                                	ret = U24_Decode((&(pVal->f_u24)), pBitStrm, pErrCode);
	                                                                                } else {
	                                                                                    pVal->f_u24 = 77UL;
	                                                                                }
	                                                                            }   /*COVERAGE_IGNORE*/
	                                                                        }   /*COVERAGE_IGNORE*/
	                                                                    }   /*COVERAGE_IGNORE*/
	                                                                }   /*COVERAGE_IGNORE*/
	                                                            }   /*COVERAGE_IGNORE*/
	                                                        }   /*COVERAGE_IGNORE*/
	                                                    }   /*COVERAGE_IGNORE*/
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && Rec_IsConstraintValid(pVal, pErrCode);
}


flag Log_Equal(const Log* pVal1, const Log* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = Rec_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag Log_IsConstraintValid(const Log* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_LOG;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = Rec_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Log_Initialize(Log* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    Rec_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag Log_Encode(const Log* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? Log_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_EncodeConstraintWholeNumber(pBitStrm, pVal->nCount, 0, 4);
	    for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	    {
	    	ret = Rec_Encode((&(pVal->arr[i1])), pBitStrm, pErrCode, FALSE);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Log_Decode(Log* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nCount;

	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, 0, 4);
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_LOG;
	pVal->nCount = (long)nCount;
	for(i1=0; (i1 < (int)pVal->nCount) && ret; i1++)
	{
		ret = Rec_Decode((&(pVal->arr[i1])), pBitStrm, pErrCode);
	}

	return ret  && Log_IsConstraintValid(pVal, pErrCode);
}


flag SoFix_Equal(const SoFix* pVal1, const SoFix* pVal2)
{
	flag ret=TRUE;
    int i1;

    for(i1 = 0; ret && i1 < 9; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag SoFix_IsConstraintValid(const SoFix* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void SoFix_Initialize(SoFix* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 9) {
	    pVal->arr[i1] = FALSE;
	    i1 = i1 + 1;
	}

}

flag SoFix_Encode(const SoFix* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	*pErrCode = 0;
	ret = bCheckConstraints ? SoFix_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    for(i1=0; (i1 < (int)9) && ret; i1++)
	    {
	    	BitStream_AppendBit(pBitStrm,pVal->arr[i1]);
	    }
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag SoFix_Decode(SoFix* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;

	for(i1=0; (i1 < (int)9) && ret; i1++)
	{
		ret = BitStream_ReadBit(pBitStrm, (&(pVal->arr[i1])));
		*pErrCode = ret ? 0 : ERR_UPER_DECODE_SOFIX_ELM;
	}

	return ret  && SoFix_IsConstraintValid(pVal, pErrCode);
}


flag Mix_m_f_k_b_Equal(const Mix_m_f_k_b* pVal1, const Mix_m_f_k_b* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag Mix_m_f_Equal(const Mix_m_f* pVal1, const Mix_m_f* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->k_a == pVal2->k_a);

    if (ret) {
        ret = (pVal1->exist.k_b == pVal2->exist.k_b);
        if (ret && pVal1->exist.k_b) {
        	ret = Mix_m_f_k_b_Equal((&(pVal1->k_b)), (&(pVal2->k_b)));
        }

    }

	return ret;

}

flag Mix_Equal(const Mix* pVal1, const Mix* pVal2)
{
	flag ret=TRUE;

    ret = Chc2_Equal((&(pVal1->m_a)), (&(pVal2->m_a)));

    if (ret) {
        ret = SoSo_Equal((&(pVal1->m_b)), (&(pVal2->m_b)));

        if (ret) {
            ret = SoFix_Equal((&(pVal1->m_c)), (&(pVal2->m_c)));

            if (ret) {
                ret = (pVal1->exist.m_d == pVal2->exist.m_d);
                if (ret && pVal1->exist.m_d) {
                	ret = OctBig_Equal((&(pVal1->m_d)), (&(pVal2->m_d)));
                }

                if (ret) {
                    ret = BitB_Equal((&(pVal1->m_e)), (&(pVal2->m_e)));

                    if (ret) {
                        ret = SoJmb_Equal((&(pVal1->m_g)), (&(pVal2->m_g)));

                        if (ret) {
                            ret = (pVal1->exist.m_f == pVal2->exist.m_f);
                            if (ret && pVal1->exist.m_f) {
                            	ret = Mix_m_f_Equal((&(pVal1->m_f)), (&(pVal2->m_f)));
                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag Mix_m_f_k_b_IsConstraintValid(const Mix_m_f_k_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 70UL);
    *pErrCode = ret ? 0 :  ERR_MIX_M_F_K_B;

	return ret;
}

flag Mix_m_f_IsConstraintValid(const Mix_m_f* pVal, int* pErrCode)
{
    flag ret = TRUE;
    if (pVal->exist.k_b) {
    	ret = Mix_m_f_k_b_IsConstraintValid((&(pVal->k_b)), pErrCode);
    }

	return ret;
}

flag Mix_IsConstraintValid(const Mix* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = Chc2_IsConstraintValid((&(pVal->m_a)), pErrCode);
    if (ret) {
        ret = SoSo_IsConstraintValid((&(pVal->m_b)), pErrCode);
        if (ret) {
            ret = SoFix_IsConstraintValid((&(pVal->m_c)), pErrCode);
            if (ret) {
                if (pVal->exist.m_d) {
                	ret = OctBig_IsConstraintValid((&(pVal->m_d)), pErrCode);
                }
                if (ret) {
                    ret = BitB_IsConstraintValid((&(pVal->m_e)), pErrCode);
                    if (ret) {
                        ret = SoJmb_IsConstraintValid((&(pVal->m_g)), pErrCode);
                        if (ret) {
                            if (pVal->exist.m_f) {
                            	ret = Mix_m_f_IsConstraintValid((&(pVal->m_f)), pErrCode);
                            }
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void Mix_m_f_k_b_Initialize(Mix_m_f_k_b* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void Mix_m_f_Initialize(Mix_m_f* pVal)
{
	(void)pVal;


	/*set k_a */
	pVal->k_a = FALSE;
	/*set k_b */
	pVal->exist.k_b = 1;
	Mix_m_f_k_b_Initialize((&(pVal->k_b)));
}
void Mix_Initialize(Mix* pVal)
{
	(void)pVal;


	/*set m_a */
	Chc2_Initialize((&(pVal->m_a)));
	/*set m_b */
	SoSo_Initialize((&(pVal->m_b)));
	/*set m_c */
	SoFix_Initialize((&(pVal->m_c)));
	/*set m_d */
	pVal->exist.m_d = 1;
	OctBig_Initialize((&(pVal->m_d)));
	/*set m_e */
	BitB_Initialize((&(pVal->m_e)));
	/*set m_g */
	SoJmb_Initialize((&(pVal->m_g)));
	/*set m_f */
	pVal->exist.m_f = 1;
	Mix_m_f_Initialize((&(pVal->m_f)));
}

flag Mix_Encode(const Mix* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	*pErrCode = 0;
	ret = bCheckConstraints ? Mix_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    BitStream_AppendBit(pBitStrm,pVal->exist.m_d);
	    if (ret) {
	        BitStream_AppendBit(pBitStrm,pVal->exist.m_f);
	        if (ret) {
	            /*Encode m_a */
	            ret = Chc2_Encode((&(pVal->m_a)), pBitStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode m_b */
	                ret = SoSo_Encode((&(pVal->m_b)), pBitStrm, pErrCode, FALSE);
	                if (ret) {
	                    /*Encode m_c */
	                    ret = SoFix_Encode((&(pVal->m_c)), pBitStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode m_d */
	                        if (pVal->exist.m_d) {
	                        	ret = OctBig_Encode((&(pVal->m_d)), pBitStrm, pErrCode, FALSE);
	                        }
	                        if (ret) {
	                            /*Encode m_e */
	                            ret = BitB_Encode((&(pVal->m_e)), pBitStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode m_g */
	                                ret = SoJmb_Encode((&(pVal->m_g)), pBitStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    /*Encode m_f */
	                                    if (pVal->exist.m_f) {
	                                    	BitStream_AppendBit(pBitStrm,pVal->m_f.exist.k_b);
	                                    	if (ret) {
	                                    	    /*Encode k_a */
	                                    	    BitStream_AppendBit(pBitStrm,pVal->m_f.k_a);
	                                    	    if (ret) {
	                                    	        /*Encode k_b */
	                                    	        if (pVal->m_f.exist.k_b) {
	                                    	        	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->m_f.k_b), 0, 70);
	                                    	        }
	                                    	    }   /*COVERAGE_IGNORE*/
	                                    	}   /*COVERAGE_IGNORE*/
	                                    }
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag Mix_Decode(Mix* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	flag presenceBit;

	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	pVal->exist.m_d = presenceBit == 0 ? 0 : 1;
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_MIX;
	if (ret) {
	    ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	    pVal->exist.m_f = presenceBit == 0 ? 0 : 1;
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_MIX;
	    if (ret) {
	        /*Decode m_a */
	        ret = Chc2_Decode((&(pVal->m_a)), pBitStrm, pErrCode);
	        if (ret) {
	            /*Decode m_b */
	            ret = SoSo_Decode((&(pVal->m_b)), pBitStrm, pErrCode);
	            if (ret) {
	                /*Decode m_c */
	                ret = SoFix_Decode((&(pVal->m_c)), pBitStrm, pErrCode);
	                if (ret) {
	                    /*Decode m_d */
	                    if (pVal->exist.m_d) {
	                    	ret = OctBig_Decode((&(pVal->m_d)), pBitStrm, pErrCode);
	                    }
	                    if (ret) {
	                        /*Decode m_e */
	                        ret = BitB_Decode((&(pVal->m_e)), pBitStrm, pErrCode);
	                        if (ret) {
	                            /*Decode m_g */
	                            ret = SoJmb_Decode((&(pVal->m_g)), pBitStrm, pErrCode);
	                            if (ret) {
	                                /*Decode m_f */
	                                if (pVal->exist.m_f) {
	                                	ret = BitStream_ReadBit(pBitStrm, &presenceBit);
	                                	pVal->m_f.exist.k_b = presenceBit == 0 ? 0 : 1;
	                                	*pErrCode = ret ? 0 : ERR_UPER_DECODE_MIX_M_F;
	                                	if (ret) {
	                                	    /*Decode k_a */
	                                	    ret = BitStream_ReadBit(pBitStrm, (&(pVal->m_f.k_a)));
	                                	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_MIX_M_F_K_A;
	                                	    if (ret) {
	                                	        /*Decode k_b */
	                                	        if (pVal->m_f.exist.k_b) {
	                                	        	ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->m_f.k_b)), 0, 70);
	                                	        	*pErrCode = ret ? 0 : ERR_UPER_DECODE_MIX_M_F_K_B;
	                                	        }
	                                	    }   /*COVERAGE_IGNORE*/
	                                	}   /*COVERAGE_IGNORE*/
	                                }
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && Mix_IsConstraintValid(pVal, pErrCode);
}


flag FragO_g_o_Equal(const FragO_g_o* pVal1, const FragO_g_o* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag FragO_g_z_Equal(const FragO_g_z* pVal1, const FragO_g_z* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag FragO_Equal(const FragO* pVal1, const FragO* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->g_x == pVal2->g_x);

    if (ret) {
        ret = FragO_g_o_Equal((&(pVal1->g_o)), (&(pVal2->g_o)));

        if (ret) {
            ret = FragO_g_z_Equal((&(pVal1->g_z)), (&(pVal2->g_z)));

        }

    }

	return ret;

}

flag FragO_g_o_IsConstraintValid(const FragO_g_o* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 70000));
    *pErrCode = ret ? 0 :  ERR_FRAGO_G_O;

	return ret;
}

flag FragO_g_z_IsConstraintValid(const FragO_g_z* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_FRAGO_G_Z;

	return ret;
}

flag FragO_IsConstraintValid(const FragO* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = FragO_g_o_IsConstraintValid((&(pVal->g_o)), pErrCode);
    if (ret) {
        ret = FragO_g_z_IsConstraintValid((&(pVal->g_z)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void FragO_g_o_Initialize(FragO_g_o* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 70000);
	pVal->nCount = 1;

}
void FragO_g_z_Initialize(FragO_g_z* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void FragO_Initialize(FragO* pVal)
{
	(void)pVal;


	/*set g_x */
	pVal->g_x = FALSE;
	/*set g_o */
	FragO_g_o_Initialize((&(pVal->g_o)));
	/*set g_z */
	FragO_g_z_Initialize((&(pVal->g_z)));
}

flag FragO_Encode(const FragO* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	asn1SccSint nBlockIndex1;
	asn1SccSint nRemainingItemsVar1;
	asn1SccSint nCurBlockSize1;
	asn1SccSint nCurOffset1;
	*pErrCode = 0;
	ret = bCheckConstraints ? FragO_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode g_x */
	    BitStream_AppendBit(pBitStrm,pVal->g_x);
	    if (ret) {
	        /*Encode g_o */
	        nRemainingItemsVar1 = pVal->g_o.nCount;
	        nCurBlockSize1 = 0;
	        nCurOffset1 = 0;
	        nBlockIndex1 = 0;
	        while (nRemainingItemsVar1 >= 0x4000 && nBlockIndex1 < pVal->g_o.nCount)
	        {
	        	if (nRemainingItemsVar1 >= 0x10000)
	        	{
	        		nCurBlockSize1 = 0x10000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC4, 0, 0xFF);
	        	}
	        	else if (nRemainingItemsVar1 >= 0xC000)
	        	{
	        		nCurBlockSize1 = 0xC000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC3, 0, 0xFF);
	        	}
	        	else if (nRemainingItemsVar1 >= 0x8000)
	        	{
	        		nCurBlockSize1 = 0x8000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC2, 0, 0xFF);
	        	}
	        	else
	        	{
	        		nCurBlockSize1 = 0x4000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC1, 0, 0xFF);
	        	}

	        	for(i1=(int)nCurOffset1; i1 < (int)(nCurBlockSize1 + nCurOffset1); i1++)
	        	{
	        		BitStream_AppendByte0(pBitStrm, pVal->g_o.arr[i1]);
	        	}
	        	nCurOffset1 += nCurBlockSize1;
	        	nRemainingItemsVar1 -= nCurBlockSize1;
	            nBlockIndex1 = nBlockIndex1+1;
	        }

	        if (nRemainingItemsVar1 <= 0x7F)
	        	BitStream_EncodeConstraintWholeNumber(pBitStrm, nRemainingItemsVar1, 0, 0xFF);
	        else
	        {
	        	BitStream_AppendBit(pBitStrm, 1);
	        	BitStream_EncodeConstraintWholeNumber(pBitStrm, nRemainingItemsVar1, 0, 0x7FFF);
	        }

	        for(i1=(int)nCurOffset1; i1 < (int)(nCurOffset1 + nRemainingItemsVar1); i1++)
	        {
	        	BitStream_AppendByte0(pBitStrm, pVal->g_o.arr[i1]);
	        }
	        if (ret) {
	            /*Encode g_z */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->g_z), 0, 7);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag FragO_Decode(FragO* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nLengthTmp1;
	asn1SccSint nRemainingItemsVar1;
	asn1SccSint nCurBlockSize1;
	asn1SccSint nCurOffset1;

	/*Decode g_x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->g_x)));
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_X;
	if (ret) {
	    /*Decode g_o */
	    nRemainingItemsVar1 = 0;
	    nCurBlockSize1 = 0;
	    nCurOffset1 = 0;
	    nLengthTmp1 = 0;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_O;
	    if (ret) {
	    	while(ret && (nRemainingItemsVar1 & 0xC0)==0xC0)
	    	{
	    		if (nRemainingItemsVar1 == 0xC4)
	    			nCurBlockSize1 = 0x10000;
	    		else if (nRemainingItemsVar1 == 0xC3)
	    			nCurBlockSize1 = 0xC000;
	    		else if (nRemainingItemsVar1 == 0xC2)
	    			nCurBlockSize1 = 0x8000;
	    		else if (nRemainingItemsVar1 == 0xC1)
	    			nCurBlockSize1 = 0x4000;
	    		else {
	    			*pErrCode = ERR_UPER_DECODE_FRAGO_G_O; /*COVERAGE_IGNORE*/
	    			return FALSE; /*COVERAGE_IGNORE*/
	    		}
	    		if (nCurOffset1 + nCurBlockSize1 > 70000)
	    		{
	    			*pErrCode = ERR_UPER_DECODE_FRAGO_G_O; /*COVERAGE_IGNORE*/
	    			return FALSE; /*COVERAGE_IGNORE*/
	    		}

	    		for(i1=(int)nCurOffset1; ret && (i1 < (int)(nCurOffset1 + nCurBlockSize1)) ; i1++)
	    		{
	    			ret = BitStream_ReadByte(pBitStrm, &(pVal->g_o.arr[i1]));
	    			*pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_O;
	    		}

	            if (ret) {
	    		    nLengthTmp1 += (long)nCurBlockSize1;
	    		    nCurOffset1 += nCurBlockSize1;
	    		    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_O;
	            }
	    	}
	        if (ret) {
	    	    if ( (nRemainingItemsVar1 & 0x80)>0)
	    	    {
	    		    asn1SccSint len2;
	    		    nRemainingItemsVar1 <<= 8;
	    		    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &len2, 0, 0xFF);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_O;
	                if (ret) {
	    		        nRemainingItemsVar1 |= len2;
	    		        nRemainingItemsVar1 &= 0x7FFF;
	                }
	    	    }
	            ret = ret && (nCurOffset1 + nRemainingItemsVar1 <= 70000);
	            *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_O;
	            if (ret) {
	    	        for(i1=(int)nCurOffset1; ret && (i1 < (int)(nCurOffset1 + nRemainingItemsVar1)) ; i1++)
	    	        {
	    		        ret = BitStream_ReadByte(pBitStrm, &(pVal->g_o.arr[i1]));
	    		        *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_O;
	    	        }
	                if (ret) {
	    	            nLengthTmp1 += (long)nRemainingItemsVar1;

	                    if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= 70000)) {
	    	                pVal->g_o.nCount = (int)nLengthTmp1;

	                    } else {
	                        ret = FALSE;  /*COVERAGE_IGNORE*/
	                        *pErrCode = ERR_UPER_DECODE_FRAGO_G_O; /*COVERAGE_IGNORE*/
	                    }

	                }
	            }
	        }
	    }
	    if (ret) {
	        /*Decode g_z */
	        ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->g_z)), 0, 7);
	        *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGO_G_Z;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && FragO_IsConstraintValid(pVal, pErrCode);
}


flag FragB_h_o_Equal(const FragB_h_o* pVal1, const FragB_h_o* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag FragB_h_z_Equal(const FragB_h_z* pVal1, const FragB_h_z* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag FragB_Equal(const FragB* pVal1, const FragB* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->h_x == pVal2->h_x);

    if (ret) {
        ret = FragB_h_o_Equal((&(pVal1->h_o)), (&(pVal2->h_o)));

        if (ret) {
            ret = FragB_h_z_Equal((&(pVal1->h_z)), (&(pVal2->h_z)));

        }

    }

	return ret;

}

flag FragB_h_o_IsConstraintValid(const FragB_h_o* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 140000));
    *pErrCode = ret ? 0 :  ERR_FRAGB_H_O;

	return ret;
}

flag FragB_h_z_IsConstraintValid(const FragB_h_z* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_FRAGB_H_Z;

	return ret;
}

flag FragB_IsConstraintValid(const FragB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = FragB_h_o_IsConstraintValid((&(pVal->h_o)), pErrCode);
    if (ret) {
        ret = FragB_h_z_IsConstraintValid((&(pVal->h_z)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void FragB_h_o_Initialize(FragB_h_o* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 140000/8);

	pVal->nCount = 1;
}
void FragB_h_z_Initialize(FragB_h_z* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void FragB_Initialize(FragB* pVal)
{
	(void)pVal;


	/*set h_x */
	pVal->h_x = FALSE;
	/*set h_o */
	FragB_h_o_Initialize((&(pVal->h_o)));
	/*set h_z */
	FragB_h_z_Initialize((&(pVal->h_z)));
}

flag FragB_Encode(const FragB* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	asn1SccSint nBlockIndex1;
	asn1SccSint nRemainingItemsVar1;
	asn1SccSint nCurBlockSize1;
	asn1SccSint nCurOffset1;
	*pErrCode = 0;
	ret = bCheckConstraints ? FragB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode h_x */
	    BitStream_AppendBit(pBitStrm,pVal->h_x);
	    if (ret) {
	        /*Encode h_o */
	        nRemainingItemsVar1 = pVal->h_o.nCount;
	        nCurBlockSize1 = 0;
	        nCurOffset1 = 0;
	        nBlockIndex1 = 0;
	        while (nRemainingItemsVar1 >= 0x4000 && nBlockIndex1 < pVal->h_o.nCount)
	        {
	        	if (nRemainingItemsVar1 >= 0x10000)
	        	{
	        		nCurBlockSize1 = 0x10000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC4, 0, 0xFF);
	        	}
	        	else if (nRemainingItemsVar1 >= 0xC000)
	        	{
	        		nCurBlockSize1 = 0xC000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC3, 0, 0xFF);
	        	}
	        	else if (nRemainingItemsVar1 >= 0x8000)
	        	{
	        		nCurBlockSize1 = 0x8000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC2, 0, 0xFF);
	        	}
	        	else
	        	{
	        		nCurBlockSize1 = 0x4000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC1, 0, 0xFF);
	        	}

	        	BitStream_AppendBits(pBitStrm, &pVal->h_o.arr[nCurOffset1/8], (int)nCurBlockSize1);
	        	nCurOffset1 += nCurBlockSize1;
	        	nRemainingItemsVar1 -= nCurBlockSize1;
	            nBlockIndex1 = nBlockIndex1+1;
	        }

	        if (nRemainingItemsVar1 <= 0x7F)
	        	BitStream_EncodeConstraintWholeNumber(pBitStrm, nRemainingItemsVar1, 0, 0xFF);
	        else
	        {
	        	BitStream_AppendBit(pBitStrm, 1);
	        	BitStream_EncodeConstraintWholeNumber(pBitStrm, nRemainingItemsVar1, 0, 0x7FFF);
	        }

	        BitStream_AppendBits(pBitStrm, &pVal->h_o.arr[nCurOffset1/8], (int)nRemainingItemsVar1);
	        if (ret) {
	            /*Encode h_z */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->h_z), 0, 7);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag FragB_Decode(FragB* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	asn1SccSint nLengthTmp1;
	asn1SccSint nRemainingItemsVar1;
	asn1SccSint nCurBlockSize1;
	asn1SccSint nCurOffset1;

	/*Decode h_x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->h_x)));
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_X;
	if (ret) {
	    /*Decode h_o */
	    nRemainingItemsVar1 = 0;
	    nCurBlockSize1 = 0;
	    nCurOffset1 = 0;
	    nLengthTmp1 = 0;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_O;
	    if (ret) {
	    	while(ret && (nRemainingItemsVar1 & 0xC0)==0xC0)
	    	{
	    		if (nRemainingItemsVar1 == 0xC4)
	    			nCurBlockSize1 = 0x10000;
	    		else if (nRemainingItemsVar1 == 0xC3)
	    			nCurBlockSize1 = 0xC000;
	    		else if (nRemainingItemsVar1 == 0xC2)
	    			nCurBlockSize1 = 0x8000;
	    		else if (nRemainingItemsVar1 == 0xC1)
	    			nCurBlockSize1 = 0x4000;
	    		else {
	    			*pErrCode = ERR_UPER_DECODE_FRAGB_H_O; /*COVERAGE_IGNORE*/
	    			return FALSE; /*COVERAGE_IGNORE*/
	    		}
	    		if (nCurOffset1 + nCurBlockSize1 > 140000)
	    		{
	    			*pErrCode = ERR_UPER_DECODE_FRAGB_H_O; /*COVERAGE_IGNORE*/
	    			return FALSE; /*COVERAGE_IGNORE*/
	    		}

	    		ret = BitStream_ReadBits(pBitStrm, &pVal->h_o.arr[nCurOffset1/8], (int)nCurBlockSize1);
	            *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_O;

	            if (ret) {
	    		    nLengthTmp1 += (long)nCurBlockSize1;
	    		    nCurOffset1 += nCurBlockSize1;
	    		    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_O;
	            }
	    	}
	        if (ret) {
	    	    if ( (nRemainingItemsVar1 & 0x80)>0)
	    	    {
	    		    asn1SccSint len2;
	    		    nRemainingItemsVar1 <<= 8;
	    		    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &len2, 0, 0xFF);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_O;
	                if (ret) {
	    		        nRemainingItemsVar1 |= len2;
	    		        nRemainingItemsVar1 &= 0x7FFF;
	                }
	    	    }
	            ret = ret && (nCurOffset1 + nRemainingItemsVar1 <= 140000);
	            *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_O;
	            if (ret) {
	                ret = BitStream_ReadBits(pBitStrm, &pVal->h_o.arr[nCurOffset1/8], (int)nRemainingItemsVar1);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_O;
	                if (ret) {
	    	            nLengthTmp1 += (long)nRemainingItemsVar1;

	                    if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= 140000)) {
	    	                pVal->h_o.nCount = (int)nLengthTmp1;

	                    } else {
	                        ret = FALSE;  /*COVERAGE_IGNORE*/
	                        *pErrCode = ERR_UPER_DECODE_FRAGB_H_O; /*COVERAGE_IGNORE*/
	                    }

	                }
	            }
	        }
	    }
	    if (ret) {
	        /*Decode h_z */
	        ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->h_z)), 0, 7);
	        *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGB_H_Z;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && FragB_IsConstraintValid(pVal, pErrCode);
}


flag FragQ_q_o_elem_Equal(const FragQ_q_o_elem* pVal1, const FragQ_q_o_elem* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag FragQ_q_o_Equal(const FragQ_q_o* pVal1, const FragQ_q_o* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = FragQ_q_o_elem_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag FragQ_q_z_Equal(const FragQ_q_z* pVal1, const FragQ_q_z* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag FragQ_Equal(const FragQ* pVal1, const FragQ* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->q_x == pVal2->q_x);

    if (ret) {
        ret = FragQ_q_o_Equal((&(pVal1->q_o)), (&(pVal2->q_o)));

        if (ret) {
            ret = FragQ_q_z_Equal((&(pVal1->q_z)), (&(pVal2->q_z)));

        }

    }

	return ret;

}

flag FragQ_q_o_elem_IsConstraintValid(const FragQ_q_o_elem* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_FRAGQ_Q_O_ELM;

	return ret;
}

flag FragQ_q_o_IsConstraintValid(const FragQ_q_o* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 68000));
    *pErrCode = ret ? 0 :  ERR_FRAGQ_Q_O;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = FragQ_q_o_elem_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag FragQ_q_z_IsConstraintValid(const FragQ_q_z* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 7UL);
    *pErrCode = ret ? 0 :  ERR_FRAGQ_Q_Z;

	return ret;
}

flag FragQ_IsConstraintValid(const FragQ* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = FragQ_q_o_IsConstraintValid((&(pVal->q_o)), pErrCode);
    if (ret) {
        ret = FragQ_q_z_IsConstraintValid((&(pVal->q_z)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void FragQ_q_o_elem_Initialize(FragQ_q_o_elem* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void FragQ_q_o_Initialize(FragQ_q_o* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 68000) {
	    FragQ_q_o_elem_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 1;
}
void FragQ_q_z_Initialize(FragQ_q_z* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void FragQ_Initialize(FragQ* pVal)
{
	(void)pVal;


	/*set q_x */
	pVal->q_x = FALSE;
	/*set q_o */
	FragQ_q_o_Initialize((&(pVal->q_o)));
	/*set q_z */
	FragQ_q_z_Initialize((&(pVal->q_z)));
}

flag FragQ_Encode(const FragQ* pVal, BitStream* pBitStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;


	int i1;
	asn1SccSint nBlockIndex1;
	asn1SccSint nRemainingItemsVar1;
	asn1SccSint nCurBlockSize1;
	asn1SccSint nCurOffset1;
	*pErrCode = 0;
	ret = bCheckConstraints ? FragQ_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret && *pErrCode == 0) {
	    /*Encode q_x */
	    BitStream_AppendBit(pBitStrm,pVal->q_x);
	    if (ret) {
	        /*Encode q_o */
	        nRemainingItemsVar1 = pVal->q_o.nCount;
	        nCurBlockSize1 = 0;
	        nCurOffset1 = 0;
	        nBlockIndex1 = 0;
	        while (nRemainingItemsVar1 >= 0x4000 && nBlockIndex1 < pVal->q_o.nCount)
	        {
	        	if (nRemainingItemsVar1 >= 0x10000)
	        	{
	        		nCurBlockSize1 = 0x10000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC4, 0, 0xFF);
	        	}
	        	else if (nRemainingItemsVar1 >= 0xC000)
	        	{
	        		nCurBlockSize1 = 0xC000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC3, 0, 0xFF);
	        	}
	        	else if (nRemainingItemsVar1 >= 0x8000)
	        	{
	        		nCurBlockSize1 = 0x8000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC2, 0, 0xFF);
	        	}
	        	else
	        	{
	        		nCurBlockSize1 = 0x4000;
	        		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC1, 0, 0xFF);
	        	}

	        	for(i1=(int)nCurOffset1; i1 < (int)(nCurBlockSize1 + nCurOffset1); i1++)
	        	{
	        		BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->q_o.arr[i1]), 0, 3);
	        	}
	        	nCurOffset1 += nCurBlockSize1;
	        	nRemainingItemsVar1 -= nCurBlockSize1;
	            nBlockIndex1 = nBlockIndex1+1;
	        }

	        if (nRemainingItemsVar1 <= 0x7F)
	        	BitStream_EncodeConstraintWholeNumber(pBitStrm, nRemainingItemsVar1, 0, 0xFF);
	        else
	        {
	        	BitStream_AppendBit(pBitStrm, 1);
	        	BitStream_EncodeConstraintWholeNumber(pBitStrm, nRemainingItemsVar1, 0, 0x7FFF);
	        }

	        for(i1=(int)nCurOffset1; i1 < (int)(nCurOffset1 + nRemainingItemsVar1); i1++)
	        {
	        	BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->q_o.arr[i1]), 0, 3);
	        }
	        if (ret) {
	            /*Encode q_z */
	            BitStream_EncodeConstraintPosWholeNumber(pBitStrm, (asn1SccUint)(pVal->q_z), 0, 7);
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    } /*COVERAGE_IGNORE*/


    return ret;
}

flag FragQ_Decode(FragQ* pVal, BitStream* pBitStrm, int* pErrCode)
{
    flag ret = TRUE;
	*pErrCode = 0;

	int i1;
	asn1SccSint nLengthTmp1;
	asn1SccSint nRemainingItemsVar1;
	asn1SccSint nCurBlockSize1;
	asn1SccSint nCurOffset1;

	/*Decode q_x */
	ret = BitStream_ReadBit(pBitStrm, (&(pVal->q_x)));
	*pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_X;
	if (ret) {
	    /*Decode q_o */
	    nRemainingItemsVar1 = 0;
	    nCurBlockSize1 = 0;
	    nCurOffset1 = 0;
	    nLengthTmp1 = 0;
	    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
	    *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_O;
	    if (ret) {
	    	while(ret && (nRemainingItemsVar1 & 0xC0)==0xC0)
	    	{
	    		if (nRemainingItemsVar1 == 0xC4)
	    			nCurBlockSize1 = 0x10000;
	    		else if (nRemainingItemsVar1 == 0xC3)
	    			nCurBlockSize1 = 0xC000;
	    		else if (nRemainingItemsVar1 == 0xC2)
	    			nCurBlockSize1 = 0x8000;
	    		else if (nRemainingItemsVar1 == 0xC1)
	    			nCurBlockSize1 = 0x4000;
	    		else {
	    			*pErrCode = ERR_UPER_DECODE_FRAGQ_Q_O; /*COVERAGE_IGNORE*/
	    			return FALSE; /*COVERAGE_IGNORE*/
	    		}
	    		if (nCurOffset1 + nCurBlockSize1 > 68000)
	    		{
	    			*pErrCode = ERR_UPER_DECODE_FRAGQ_Q_O; /*COVERAGE_IGNORE*/
	    			return FALSE; /*COVERAGE_IGNORE*/
	    		}

	    		for(i1=(int)nCurOffset1; ret && (i1 < (int)(nCurOffset1 + nCurBlockSize1)) ; i1++)
	    		{
	    			ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->q_o.arr[i1])), 0, 3);
	    			*pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_O_ELM;
	    		}

	            if (ret) {
	    		    nLengthTmp1 += (long)nCurBlockSize1;
	    		    nCurOffset1 += nCurBlockSize1;
	    		    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_O;
	            }
	    	}
	        if (ret) {
	    	    if ( (nRemainingItemsVar1 & 0x80)>0)
	    	    {
	    		    asn1SccSint len2;
	    		    nRemainingItemsVar1 <<= 8;
	    		    ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &len2, 0, 0xFF);
	                *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_O;
	                if (ret) {
	    		        nRemainingItemsVar1 |= len2;
	    		        nRemainingItemsVar1 &= 0x7FFF;
	                }
	    	    }
	            ret = ret && (nCurOffset1 + nRemainingItemsVar1 <= 68000);
	            *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_O;
	            if (ret) {
	    	        for(i1=(int)nCurOffset1; ret && (i1 < (int)(nCurOffset1 + nRemainingItemsVar1)) ; i1++)
	    	        {
	    		        ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->q_o.arr[i1])), 0, 3);
	    		        *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_O_ELM;
	    	        }
	                if (ret) {
	    	            nLengthTmp1 += (long)nRemainingItemsVar1;

	                    if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= 68000)) {
	    	                pVal->q_o.nCount = (int)nLengthTmp1;

	                    } else {
	                        ret = FALSE;  /*COVERAGE_IGNORE*/
	                        *pErrCode = ERR_UPER_DECODE_FRAGQ_Q_O; /*COVERAGE_IGNORE*/
	                    }

	                }
	            }
	        }
	    }
	    if (ret) {
	        /*Decode q_z */
	        ret = BitStream_DecodeConstraintPosWholeNumberUInt8(pBitStrm, (&(pVal->q_z)), 0, 7);
	        *pErrCode = ret ? 0 : ERR_UPER_DECODE_FRAGQ_Q_Z;
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret  && FragQ_IsConstraintValid(pVal, pErrCode);
}


