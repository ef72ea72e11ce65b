/*
Code automatically generated by asn1scc tool
*/
#include <limits.h>
#include <string.h>
#include <math.h>

#include "asn1crt_encoding_xer.h"

#include "XEM.h"


flag XU8_Equal(const XU8* pVal1, const XU8* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XU8_IsConstraintValid(const XU8* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 255UL);
    *pErrCode = ret ? 0 :  ERR_XU8;

	return ret;
}

void XU8_Initialize(XU8* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag XU8_XER_Encode_aux(const XU8* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XU8_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodePosInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XU8;
    }


    return ret;
}

flag XU8_XER_Encode(const XU8* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XU8_XER_Encode_aux(pVal, "XU8", pByteStrm, pErrCode, bCheckConstraints);
}

flag XU8_XER_Decode_aux(XU8* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodePosInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = ((*(pVal)) <= 255UL);
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XU8;

	return ret;
}

flag XU8_XER_Decode(XU8* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XU8_XER_Decode_aux(pVal, "XU8", pByteStrm, pErrCode);
}


flag XEmpty_Equal(const XEmpty* pVal1, const XEmpty* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->exist.o_a == pVal2->exist.o_a);
    if (ret && pVal1->exist.o_a) {
    	ret = (pVal1->o_a == pVal2->o_a);
    }

    if (ret) {
        ret = (pVal1->exist.o_b == pVal2->exist.o_b);
        if (ret && pVal1->exist.o_b) {
        	ret = (pVal1->o_b == pVal2->o_b);
        }

    }

	return ret;

}

flag XEmpty_IsConstraintValid(const XEmpty* pVal, int* pErrCode)
{
    flag ret = TRUE;
    if (pVal->exist.o_b) {
    	ret = XU8_IsConstraintValid((&(pVal->o_b)), pErrCode);
    }

	return ret;
}

void XEmpty_Initialize(XEmpty* pVal)
{
	(void)pVal;


	/*set o_a */
	pVal->exist.o_a = 1;
	pVal->o_a = FALSE;
	/*set o_b */
	pVal->exist.o_b = 1;
	XU8_Initialize((&(pVal->o_b)));
}

flag XEmpty_XER_Encode_aux(const XEmpty* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XEmpty_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XEMPTY;
	    if (ret) {
	        /*Encode o_a */
	        if (pVal->exist.o_a) {
	        	ret = Xer_EncodeBoolean(pByteStrm, "o-a", pVal->o_a, pErrCode, 1);
	        	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XEMPTY_O_A;
	        }
	        if (ret) {
	            /*Encode o_b */
	            if (pVal->exist.o_b) {
	            	ret = XU8_XER_Encode_aux((&(pVal->o_b)), "o-b", pByteStrm, pErrCode, FALSE);
	            }
	            if (ret) {
	                ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	                *pErrCode = ret ? 0 : ERR_XER_ENCODE_XEMPTY;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    }


    return ret;
}

flag XEmpty_XER_Encode(const XEmpty* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XEmpty_XER_Encode_aux(pVal, "XEmpty", pByteStrm, pErrCode, bCheckConstraints);
}

flag XEmpty_XER_Decode_aux(XEmpty* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XEMPTY;
	if (ret) {
	    /*Decode o_a */
	    pVal->exist.o_a = 0;
	    if (Xer_NextStartElementIs(pByteStrm, "o-a")) {
	    	pVal->exist.o_a = 1;
	    	ret = Xer_DecodeBoolean(pByteStrm, "o-a", (&(pVal->o_a)), pErrCode);
	    	*pErrCode = ret ? 0 : ERR_XER_DECODE_XEMPTY_O_A;
	    }
	    if (ret) {
	        /*Decode o_b */
	        pVal->exist.o_b = 0;
	        if (Xer_NextStartElementIs(pByteStrm, "o-b")) {
	        	pVal->exist.o_b = 1;
	        	ret = XU8_XER_Decode_aux((&(pVal->o_b)), "o-b", pByteStrm, pErrCode);
	        }
	        if (ret) {
	            ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	            *pErrCode = ret ? 0 : ERR_XER_DECODE_XEMPTY;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret;
}

flag XEmpty_XER_Decode(XEmpty* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XEmpty_XER_Decode_aux(pVal, "XEmpty", pByteStrm, pErrCode);
}


flag XI5_Equal(const XI5* pVal1, const XI5* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XI5_IsConstraintValid(const XI5* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-7LL <= (*(pVal))) && ((*(pVal)) <= 23LL));
    *pErrCode = ret ? 0 :  ERR_XI5;

	return ret;
}

void XI5_Initialize(XI5* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag XI5_XER_Encode_aux(const XI5* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XI5_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XI5;
    }


    return ret;
}

flag XI5_XER_Encode(const XI5* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XI5_XER_Encode_aux(pVal, "XI5", pByteStrm, pErrCode, bCheckConstraints);
}

flag XI5_XER_Decode_aux(XI5* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = ((-7LL <= (*(pVal))) && ((*(pVal)) <= 23LL));
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XI5;

	return ret;
}

flag XI5_XER_Decode(XI5* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XI5_XER_Decode_aux(pVal, "XI5", pByteStrm, pErrCode);
}


flag XBig_Equal(const XBig* pVal1, const XBig* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XBig_IsConstraintValid(const XBig* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void XBig_Initialize(XBig* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag XBig_XER_Encode_aux(const XBig* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XBig_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XBIG;
    }


    return ret;
}

flag XBig_XER_Encode(const XBig* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XBig_XER_Encode_aux(pVal, "XBig", pByteStrm, pErrCode, bCheckConstraints);
}

flag XBig_XER_Decode_aux(XBig* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeInteger(pByteStrm, xmlTag, pVal, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XBIG;

	return ret;
}

flag XBig_XER_Decode(XBig* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XBig_XER_Decode_aux(pVal, "XBig", pByteStrm, pErrCode);
}


flag XPt_x_px_Equal(const XPt_x_px* pVal1, const XPt_x_px* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XPt_Equal(const XPt* pVal1, const XPt* pVal2)
{
	flag ret=TRUE;

    ret = XPt_x_px_Equal((&(pVal1->x_px)), (&(pVal2->x_px)));

    if (ret) {
        ret = (pVal1->exist.x_py == pVal2->exist.x_py);
        if (ret && pVal1->exist.x_py) {
        	ret = (pVal1->x_py == pVal2->x_py);
        }

    }

	return ret;

}

flag XPt_x_px_IsConstraintValid(const XPt_x_px* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-5LL <= (*(pVal))) && ((*(pVal)) <= 5LL));
    *pErrCode = ret ? 0 :  ERR_XPT_X_PX;

	return ret;
}

flag XPt_IsConstraintValid(const XPt* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = XPt_x_px_IsConstraintValid((&(pVal->x_px)), pErrCode);
    if (ret) {
        if (pVal->exist.x_py) {
        	ret = XBig_IsConstraintValid((&(pVal->x_py)), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XPt_x_px_Initialize(XPt_x_px* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}
void XPt_Initialize(XPt* pVal)
{
	(void)pVal;


	/*set x_px */
	XPt_x_px_Initialize((&(pVal->x_px)));
	/*set x_py */
	pVal->exist.x_py = 1;
	XBig_Initialize((&(pVal->x_py)));
}

flag XPt_XER_Encode_aux(const XPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XPt_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XPT;
	    if (ret) {
	        /*Encode x_px */
	        ret = Xer_EncodeInteger(pByteStrm, "x-px", pVal->x_px, pErrCode, 1);
	        *pErrCode = ret ? 0 : ERR_XER_ENCODE_XPT_X_PX;
	        if (ret) {
	            /*Encode x_py */
	            if (pVal->exist.x_py) {
	            	ret = XBig_XER_Encode_aux((&(pVal->x_py)), "x-py", pByteStrm, pErrCode, FALSE);
	            }
	            if (ret) {
	                ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	                *pErrCode = ret ? 0 : ERR_XER_ENCODE_XPT;
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    }


    return ret;
}

flag XPt_XER_Encode(const XPt* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XPt_XER_Encode_aux(pVal, "XPt", pByteStrm, pErrCode, bCheckConstraints);
}

flag XPt_XER_Decode_aux(XPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XPT;
	if (ret) {
	    /*Decode x_px */
	    ret = Xer_NextStartElementIs(pByteStrm, "x-px");
	    if (ret) {
	    	ret = Xer_DecodeInteger(pByteStrm, "x-px", (&(pVal->x_px)), pErrCode);
	    	if (ret) {
	    	    ret = ((-5LL <= pVal->x_px) && (pVal->x_px <= 5LL));
	    	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XPT_X_PX;
	    } else {
	    	*pErrCode = ERR_INVALID_XML_FILE;
	    }
	    if (ret) {
	        /*Decode x_py */
	        pVal->exist.x_py = 0;
	        if (Xer_NextStartElementIs(pByteStrm, "x-py")) {
	        	pVal->exist.x_py = 1;
	        	ret = XBig_XER_Decode_aux((&(pVal->x_py)), "x-py", pByteStrm, pErrCode);
	        }
	        if (ret) {
	            ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	            *pErrCode = ret ? 0 : ERR_XER_DECODE_XPT;
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret;
}

flag XPt_XER_Decode(XPt* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XPt_XER_Decode_aux(pVal, "XPt", pByteStrm, pErrCode);
}


flag XSoPt_Equal(const XSoPt* pVal1, const XSoPt* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XPt_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoPt_IsConstraintValid(const XSoPt* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 5);
    *pErrCode = ret ? 0 :  ERR_XSOPT;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XPt_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoPt_Initialize(XSoPt* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 5) {
	    XPt_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoPt_XER_Encode_aux(const XSoPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoPt_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOPT;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XPt_XER_Encode_aux((&(pVal->arr[i1])), "XPt", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOPT;
	        }
	    }
    }


    return ret;
}

flag XSoPt_XER_Encode(const XSoPt* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoPt_XER_Encode_aux(pVal, "XSoPt", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoPt_XER_Decode_aux(XSoPt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 5) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOPT;
	            break;
	        }
		    ret = XPt_XER_Decode_aux((&(pVal->arr[i1])), "XPt", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOPT;


	return ret;
}

flag XSoPt_XER_Decode(XSoPt* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoPt_XER_Decode_aux(pVal, "XSoPt", pByteStrm, pErrCode);
}


flag XSemi_Equal(const XSemi* pVal1, const XSemi* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XSemi_IsConstraintValid(const XSemi* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (10UL <= (*(pVal)));
    *pErrCode = ret ? 0 :  ERR_XSEMI;

	return ret;
}

void XSemi_Initialize(XSemi* pVal)
{
	(void)pVal;


	(*(pVal)) = 10UL;
}

flag XSemi_XER_Encode_aux(const XSemi* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XSemi_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodePosInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSEMI;
    }


    return ret;
}

flag XSemi_XER_Encode(const XSemi* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSemi_XER_Encode_aux(pVal, "XSemi", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSemi_XER_Decode_aux(XSemi* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodePosInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = (10UL <= (*(pVal)));
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSEMI;

	return ret;
}

flag XSemi_XER_Decode(XSemi* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSemi_XER_Decode_aux(pVal, "XSemi", pByteStrm, pErrCode);
}


flag XFlg_Equal(const XFlg* pVal1, const XFlg* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XFlg_IsConstraintValid(const XFlg* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void XFlg_Initialize(XFlg* pVal)
{
	(void)pVal;


	(*(pVal)) = FALSE;
}

flag XFlg_XER_Encode_aux(const XFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XFlg_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeBoolean(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XFLG;
    }


    return ret;
}

flag XFlg_XER_Encode(const XFlg* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XFlg_XER_Encode_aux(pVal, "XFlg", pByteStrm, pErrCode, bCheckConstraints);
}

flag XFlg_XER_Decode_aux(XFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeBoolean(pByteStrm, xmlTag, pVal, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XFLG;

	return ret;
}

flag XFlg_XER_Decode(XFlg* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XFlg_XER_Decode_aux(pVal, "XFlg", pByteStrm, pErrCode);
}


flag XSoFlg_Equal(const XSoFlg* pVal1, const XSoFlg* pVal2)
{
	flag ret=TRUE;
    int i1;

    for(i1 = 0; ret && i1 < 3; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag XSoFlg_IsConstraintValid(const XSoFlg* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    for(i1 = 0; ret && i1 < 3; i1++)
    {
    	ret = XFlg_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
    }

	return ret;
}

void XSoFlg_Initialize(XSoFlg* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    pVal->arr[i1] = FALSE;
	    i1 = i1 + 1;
	}

}

flag XSoFlg_XER_Encode_aux(const XSoFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoFlg_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOFLG;
	    if (ret) {
	        for(i1=0;((i1 < 3) && ret);i1++)
	        {
	    	    ret = XFlg_XER_Encode_aux((&(pVal->arr[i1])), "XFlg", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOFLG;
	        }
	    }
    }


    return ret;
}

flag XSoFlg_XER_Encode(const XSoFlg* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoFlg_XER_Encode_aux(pVal, "XSoFlg", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoFlg_XER_Decode_aux(XSoFlg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 3) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOFLG;
	            break;
	        }
		    ret = XFlg_XER_Decode_aux((&(pVal->arr[i1])), "XFlg", pByteStrm, pErrCode);
		    i1++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	ret = ret && i1 == 3;
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XSOFLG;


	return ret;
}

flag XSoFlg_XER_Decode(XSoFlg* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoFlg_XER_Decode_aux(pVal, "XSoFlg", pByteStrm, pErrCode);
}


flag XRl_Equal(const XRl* pVal1, const XRl* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag XRl_IsConstraintValid(const XRl* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void XRl_Initialize(XRl* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag XRl_XER_Encode_aux(const XRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XRl_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeReal(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XRL;
    }


    return ret;
}

flag XRl_XER_Encode(const XRl* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XRl_XER_Encode_aux(pVal, "XRl", pByteStrm, pErrCode, bCheckConstraints);
}

flag XRl_XER_Decode_aux(XRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeReal(pByteStrm, xmlTag, pVal, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XRL;

	return ret;
}

flag XRl_XER_Decode(XRl* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XRl_XER_Decode_aux(pVal, "XRl", pByteStrm, pErrCode);
}


flag XSoRl_Equal(const XSoRl* pVal1, const XSoRl* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (Asn1Real_Equal(pVal1->arr[i1],pVal2->arr[i1]));
    }

	return ret;

}

flag XSoRl_IsConstraintValid(const XSoRl* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_XSORL;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XRl_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoRl_Initialize(XSoRl* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 6) {
	    pVal->arr[i1] = 0.0000000000000000000E+000;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoRl_XER_Encode_aux(const XSoRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoRl_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSORL;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XRl_XER_Encode_aux((&(pVal->arr[i1])), "XRl", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSORL;
	        }
	    }
    }


    return ret;
}

flag XSoRl_XER_Encode(const XSoRl* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoRl_XER_Encode_aux(pVal, "XSoRl", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoRl_XER_Decode_aux(XSoRl* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 6) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSORL;
	            break;
	        }
		    ret = XRl_XER_Decode_aux((&(pVal->arr[i1])), "XRl", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSORL;


	return ret;
}

flag XSoRl_XER_Decode(XSoRl* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoRl_XER_Decode_aux(pVal, "XSoRl", pByteStrm, pErrCode);
}


flag XCol_Equal(const XCol* pVal1, const XCol* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XCol_IsConstraintValid(const XCol* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((*(pVal)) == xred)) || (((*(pVal)) == xgreen)))) || (((*(pVal)) == xblue)));
    *pErrCode = ret ? 0 :  ERR_XCOL;

	return ret;
}

void XCol_Initialize(XCol* pVal)
{
	(void)pVal;


	(*(pVal)) = xred;
}

flag XCol_XER_Encode_aux(const XCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XCol_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    switch((*(pVal)))
	    {
	        case xred:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xred", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XCOL;
	        	break;
	        case xgreen:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xgreen", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XCOL;
	        	break;
	        case xblue:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xblue", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XCOL;
	        	break;
	        default:
	    	    *pErrCode = ERR_XER_ENCODE_XCOL; /*COVERAGE_IGNORE*/
	    	    ret = FALSE;  /*COVERAGE_IGNORE*/
	    }
    }


    return ret;
}

flag XCol_XER_Encode(const XCol* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XCol_XER_Encode_aux(pVal, "XCol", pByteStrm, pErrCode, bCheckConstraints);
}

flag XCol_XER_Decode_aux(XCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	{
		char enmLabel[200];
		ret = Xer_DecodeEnumerated(pByteStrm, xmlTag, enmLabel, pErrCode);
	    if (ret) {
	        if(strcmp(enmLabel,"xred") == 0)
	            (*(pVal)) = xred;
	        else if(strcmp(enmLabel,"xgreen") == 0)
	            (*(pVal)) = xgreen;
	        else if(strcmp(enmLabel,"xblue") == 0)
	            (*(pVal)) = xblue;
		    else {
			    ret = FALSE; /*COVERAGE_IGNORE*/
			    *pErrCode = ERR_XER_DECODE_XCOL; /*COVERAGE_IGNORE*/
		    }
	    } else {
	        *pErrCode = ERR_XER_DECODE_XCOL; /*COVERAGE_IGNORE*/
	    }
		*pErrCode = ret  ? 0 : ERR_XER_DECODE_XCOL;
	}

	return ret;
}

flag XCol_XER_Decode(XCol* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XCol_XER_Decode_aux(pVal, "XCol", pByteStrm, pErrCode);
}


flag XSoCol_Equal(const XSoCol* pVal1, const XSoCol* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag XSoCol_IsConstraintValid(const XSoCol* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_XSOCOL;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XCol_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoCol_Initialize(XSoCol* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    pVal->arr[i1] = xred;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoCol_XER_Encode_aux(const XSoCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoCol_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOCOL;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XCol_XER_Encode_aux((&(pVal->arr[i1])), "XCol", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOCOL;
	        }
	    }
    }


    return ret;
}

flag XSoCol_XER_Encode(const XSoCol* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoCol_XER_Encode_aux(pVal, "XSoCol", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoCol_XER_Decode_aux(XSoCol* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 4) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOCOL;
	            break;
	        }
		    ret = XCol_XER_Decode_aux((&(pVal->arr[i1])), "XCol", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOCOL;


	return ret;
}

flag XSoCol_XER_Decode(XSoCol* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoCol_XER_Decode_aux(pVal, "XSoCol", pByteStrm, pErrCode);
}


flag XOctF_Equal(const XOctF* pVal1, const XOctF* pVal2)
{
	return memcmp(pVal1->arr, pVal2->arr, 7) ==0;

}

flag XOctF_IsConstraintValid(const XOctF* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void XOctF_Initialize(XOctF* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 7);


}

flag XOctF_XER_Encode_aux(const XOctF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XOctF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeOctetString(pByteStrm, xmlTag, pVal->arr, 7, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XOCTF;
    }


    return ret;
}

flag XOctF_XER_Encode(const XOctF* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XOctF_XER_Encode_aux(pVal, "XOctF", pByteStrm, pErrCode, bCheckConstraints);
}

flag XOctF_XER_Decode_aux(XOctF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeOctetString(pByteStrm, xmlTag, pVal->arr, 7, NULL, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XOCTF;

	return ret;
}

flag XOctF_XER_Decode(XOctF* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XOctF_XER_Decode_aux(pVal, "XOctF", pByteStrm, pErrCode);
}


flag XOctV_Equal(const XOctV* pVal1, const XOctV* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag XOctV_IsConstraintValid(const XOctV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 40);
    *pErrCode = ret ? 0 :  ERR_XOCTV;

	return ret;
}

void XOctV_Initialize(XOctV* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 40);
	pVal->nCount = 0;

}

flag XOctV_XER_Encode_aux(const XOctV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XOctV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeOctetString(pByteStrm, xmlTag, pVal->arr, pVal->nCount, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XOCTV;
    }


    return ret;
}

flag XOctV_XER_Encode(const XOctV* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XOctV_XER_Encode_aux(pVal, "XOctV", pByteStrm, pErrCode, bCheckConstraints);
}

flag XOctV_XER_Decode_aux(XOctV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeOctetString(pByteStrm, xmlTag, pVal->arr, 40, &pVal->nCount, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XOCTV;

	return ret;
}

flag XOctV_XER_Decode(XOctV* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XOctV_XER_Decode_aux(pVal, "XOctV", pByteStrm, pErrCode);
}


flag XSoOct_Equal(const XSoOct* pVal1, const XSoOct* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XOctV_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoOct_IsConstraintValid(const XSoOct* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 5);
    *pErrCode = ret ? 0 :  ERR_XSOOCT;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XOctV_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoOct_Initialize(XSoOct* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 5) {
	    memset(pVal->arr[i1].arr, 0x0, 40);
	    pVal->arr[i1].nCount = 0;

	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoOct_XER_Encode_aux(const XSoOct* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoOct_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOOCT;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XOctV_XER_Encode_aux((&(pVal->arr[i1])), "XOctV", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOOCT;
	        }
	    }
    }


    return ret;
}

flag XSoOct_XER_Encode(const XSoOct* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoOct_XER_Encode_aux(pVal, "XSoOct", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoOct_XER_Decode_aux(XSoOct* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 5) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOOCT;
	            break;
	        }
		    ret = XOctV_XER_Decode_aux((&(pVal->arr[i1])), "XOctV", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOOCT;


	return ret;
}

flag XSoOct_XER_Decode(XSoOct* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoOct_XER_Decode_aux(pVal, "XSoOct", pByteStrm, pErrCode);
}


flag XBitF_Equal(const XBitF* pVal1, const XBitF* pVal2)
{
	return     (memcmp(pVal1->arr, pVal2->arr, 13/8) == 0) &&
    ((13 % 8) >0 ? (pVal1->arr[13/8]>>(8-13 % 8) == pVal2->arr[13/8]>>(8-13 % 8) ) : TRUE)
;

}

flag XBitF_IsConstraintValid(const XBitF* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void XBitF_Initialize(XBitF* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 16/8);


}

flag XBitF_XER_Encode_aux(const XBitF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XBitF_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeBitString(pByteStrm, xmlTag, pVal->arr, 13, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XBITF;
    }


    return ret;
}

flag XBitF_XER_Encode(const XBitF* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XBitF_XER_Encode_aux(pVal, "XBitF", pByteStrm, pErrCode, bCheckConstraints);
}

flag XBitF_XER_Decode_aux(XBitF* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeBitString(pByteStrm, xmlTag, pVal->arr, 13, NULL, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XBITF;

	return ret;
}

flag XBitF_XER_Decode(XBitF* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XBitF_XER_Decode_aux(pVal, "XBitF", pByteStrm, pErrCode);
}


flag XSoBit_Equal(const XSoBit* pVal1, const XSoBit* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XBitF_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoBit_IsConstraintValid(const XSoBit* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = ((2 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 5));
    *pErrCode = ret ? 0 :  ERR_XSOBIT;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XBitF_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoBit_Initialize(XSoBit* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 5) {
	    memset(pVal->arr[i1].arr, 0x0, 16/8);


	    i1 = i1 + 1;
	}
	pVal->nCount = 2;
}

flag XSoBit_XER_Encode_aux(const XSoBit* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoBit_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOBIT;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XBitF_XER_Encode_aux((&(pVal->arr[i1])), "XBitF", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOBIT;
	        }
	    }
    }


    return ret;
}

flag XSoBit_XER_Encode(const XSoBit* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoBit_XER_Encode_aux(pVal, "XSoBit", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoBit_XER_Decode_aux(XSoBit* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 5) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOBIT;
	            break;
	        }
		    ret = XBitF_XER_Decode_aux((&(pVal->arr[i1])), "XBitF", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOBIT;


	return ret;
}

flag XSoBit_XER_Decode(XSoBit* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoBit_XER_Decode_aux(pVal, "XSoBit", pByteStrm, pErrCode);
}


flag XBitV_Equal(const XBitV* pVal1, const XBitV* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag XBitV_IsConstraintValid(const XBitV* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 50));
    *pErrCode = ret ? 0 :  ERR_XBITV;

	return ret;
}

void XBitV_Initialize(XBitV* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 56/8);

	pVal->nCount = 1;
}

flag XBitV_XER_Encode_aux(const XBitV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XBitV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeBitString(pByteStrm, xmlTag, pVal->arr, pVal->nCount, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XBITV;
    }


    return ret;
}

flag XBitV_XER_Encode(const XBitV* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XBitV_XER_Encode_aux(pVal, "XBitV", pByteStrm, pErrCode, bCheckConstraints);
}

flag XBitV_XER_Decode_aux(XBitV* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeBitString(pByteStrm, xmlTag, pVal->arr, 50, &pVal->nCount, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XBITV;

	return ret;
}

flag XBitV_XER_Decode(XBitV* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XBitV_XER_Decode_aux(pVal, "XBitV", pByteStrm, pErrCode);
}


flag XStrA_Equal(const XStrA pVal1, const XStrA pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag XStrA_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((('A' <= str[i]) && (str[i] <= 'Z')));
        i = i + 1;
    }
    return ret;
}
flag XStrA_IsConstraintValid(const XStrA pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) == 5);
    if (ret) {
        ret = XStrA_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_XSTRA;

	return ret;
}

void XStrA_Initialize(XStrA pVal)
{
	(void)pVal;


	memset(pVal, 'A', 5);
	pVal[5] = 0;

}

flag XStrA_XER_Encode_aux(const XStrA pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XStrA_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeString(pByteStrm, xmlTag, pVal, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSTRA;
    }


    return ret;
}

flag XStrA_XER_Encode(const XStrA pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XStrA_XER_Encode_aux(pVal, "XStrA", pByteStrm, pErrCode, bCheckConstraints);
}

flag XStrA_XER_Decode_aux(XStrA pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeString(pByteStrm, xmlTag, pVal, 5 + 1, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSTRA;

	return ret;
}

flag XStrA_XER_Decode(XStrA pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XStrA_XER_Decode_aux(pVal, "XStrA", pByteStrm, pErrCode);
}


flag XStrV_Equal(const XStrV pVal1, const XStrV pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag XStrV_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((((((('A' <= str[i]) && (str[i] <= 'Z'))) || ((('a' <= str[i]) && (str[i] <= 'z'))))) || ((('0' <= str[i]) && (str[i] <= '9')))));
        i = i + 1;
    }
    return ret;
}
flag XStrV_IsConstraintValid(const XStrV pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 20);
    if (ret) {
        ret = XStrV_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_XSTRV;

	return ret;
}

void XStrV_Initialize(XStrV pVal)
{
	(void)pVal;


	memset(pVal, '0', 20);
	pVal[20] = 0;

}

flag XStrV_XER_Encode_aux(const XStrV pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XStrV_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeString(pByteStrm, xmlTag, pVal, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSTRV;
    }


    return ret;
}

flag XStrV_XER_Encode(const XStrV pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XStrV_XER_Encode_aux(pVal, "XStrV", pByteStrm, pErrCode, bCheckConstraints);
}

flag XStrV_XER_Decode_aux(XStrV pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeString(pByteStrm, xmlTag, pVal, 20 + 1, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSTRV;

	return ret;
}

flag XStrV_XER_Decode(XStrV pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XStrV_XER_Decode_aux(pVal, "XStrV", pByteStrm, pErrCode);
}


flag XChc_x_a_Equal(const XChc_x_a* pVal1, const XChc_x_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XChc_Equal(const XChc* pVal1, const XChc* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case x_a_PRESENT:
    		ret = XChc_x_a_Equal((&(pVal1->u.x_a)), (&(pVal2->u.x_a)));
    		break;
    	case x_b_PRESENT:
    		ret = (pVal1->u.x_b == pVal2->u.x_b);
    		break;
    	case x_c_PRESENT:
    		ret = XOctV_Equal((&(pVal1->u.x_c)), (&(pVal2->u.x_c)));
    		break;
    	case x_d_PRESENT:
    		ret = (strcmp(pVal1->u.x_d, pVal2->u.x_d) == 0);
    		break;
    	case x_e_PRESENT:
    		ret = (Asn1Real_Equal(pVal1->u.x_e,pVal2->u.x_e));
    		break;
    	case x_f_PRESENT:
    		ret = XPt_Equal((&(pVal1->u.x_f)), (&(pVal2->u.x_f)));
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag XChc_x_a_IsConstraintValid(const XChc_x_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 3UL);
    *pErrCode = ret ? 0 :  ERR_XCHC_X_A;

	return ret;
}

flag XChc_IsConstraintValid(const XChc* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case x_a_PRESENT : 
            ret = XChc_x_a_IsConstraintValid((&(pVal->u.x_a)), pErrCode);
            break;          
        case x_b_PRESENT : /*COVERAGE_IGNORE*/
            ret = TRUE;
            *pErrCode = 0;
            break;          /*COVERAGE_IGNORE*/
        case x_c_PRESENT : 
            ret = XOctV_IsConstraintValid((&(pVal->u.x_c)), pErrCode);
            break;          
        case x_d_PRESENT : 
            ret = XStrV_IsConstraintValid(pVal->u.x_d, pErrCode);
            break;          
        case x_e_PRESENT : 
            ret = XRl_IsConstraintValid((&(pVal->u.x_e)), pErrCode);
            break;          
        case x_f_PRESENT : 
            ret = XPt_IsConstraintValid((&(pVal->u.x_f)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_XCHC;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void XChc_x_a_Initialize(XChc_x_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void XChc_Initialize(XChc* pVal)
{
	(void)pVal;


	pVal->kind = x_a_PRESENT;
	XChc_x_a_Initialize((&(pVal->u.x_a)));
}

flag XChc_XER_Encode_aux(const XChc* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XChc_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* CHOICE Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XCHC;
	    if (ret) {
	        switch(pVal->kind)
	        {
	            case x_a_PRESENT:
	            	ret = Xer_EncodePosInteger(pByteStrm, "x-a", pVal->u.x_a, pErrCode, 1);
	            	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XCHC_X_A;
	            	break;
	            case x_b_PRESENT:
	            	ret = Xer_EncodeBoolean(pByteStrm, "x-b", pVal->u.x_b, pErrCode, 1);
	            	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XCHC_X_B;
	            	break;
	            case x_c_PRESENT:
	            	ret = XOctV_XER_Encode_aux((&(pVal->u.x_c)), "x-c", pByteStrm, pErrCode, FALSE);
	            	break;
	            case x_d_PRESENT:
	            	ret = XStrV_XER_Encode_aux(pVal->u.x_d, "x-d", pByteStrm, pErrCode, FALSE);
	            	break;
	            case x_e_PRESENT:
	            	ret = XRl_XER_Encode_aux((&(pVal->u.x_e)), "x-e", pByteStrm, pErrCode, FALSE);
	            	break;
	            case x_f_PRESENT:
	            	ret = XPt_XER_Encode_aux((&(pVal->u.x_f)), "x-f", pByteStrm, pErrCode, FALSE);
	            	break;
	            default:
	        	    *pErrCode = ERR_XER_ENCODE_XCHC;
	                ret = FALSE;
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	    		*pErrCode = ret ? 0 : ERR_XER_ENCODE_XCHC;
	        }
	    }
    }


    return ret;
}

flag XChc_XER_Encode(const XChc* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XChc_XER_Encode_aux(pVal, "XChc", pByteStrm, pErrCode, bCheckConstraints);
}

flag XChc_XER_Decode_aux(XChc* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* CHOICE Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XCHC;
	if (ret) {
	    {
	    	char nextTag[256];
	    	ret = Xer_LA_NextElementTag(pByteStrm, nextTag);
	    	if (ret) {
	    		if (strcmp(nextTag, "x-a") == 0) {
	    		    pVal->kind = x_a_PRESENT;
	    		    ret = Xer_DecodePosInteger(pByteStrm, "x-a", (&(pVal->u.x_a)), pErrCode);
	    		    if (ret) {
	    		        ret = (pVal->u.x_a <= 3UL);
	    		    }*pErrCode = ret  ? 0 : ERR_XER_DECODE_XCHC_X_A;
	    		}
	    		else if (strcmp(nextTag, "x-b") == 0) {
	    		    pVal->kind = x_b_PRESENT;
	    		    ret = Xer_DecodeBoolean(pByteStrm, "x-b", (&(pVal->u.x_b)), pErrCode);
	    		    *pErrCode = ret ? 0 : ERR_XER_DECODE_XCHC_X_B;
	    		}
	    		else if (strcmp(nextTag, "x-c") == 0) {
	    		    pVal->kind = x_c_PRESENT;
	    		    ret = XOctV_XER_Decode_aux((&(pVal->u.x_c)), "x-c", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "x-d") == 0) {
	    		    pVal->kind = x_d_PRESENT;
	    		    ret = XStrV_XER_Decode_aux(pVal->u.x_d, "x-d", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "x-e") == 0) {
	    		    pVal->kind = x_e_PRESENT;
	    		    ret = XRl_XER_Decode_aux((&(pVal->u.x_e)), "x-e", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "x-f") == 0) {
	    		    pVal->kind = x_f_PRESENT;
	    		    ret = XPt_XER_Decode_aux((&(pVal->u.x_f)), "x-f", pByteStrm, pErrCode);
	    		}
	            else {
	                ret = FALSE;
	                *pErrCode = ERR_XER_DECODE_XCHC;
	            }
	    	} else {
	    		*pErrCode = ERR_XER_DECODE_XCHC;
	    	}
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	        *pErrCode = ret ? 0 : ERR_XER_DECODE_XCHC;
	    }
	}

	return ret;
}

flag XChc_XER_Decode(XChc* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XChc_XER_Decode_aux(pVal, "XChc", pByteStrm, pErrCode);
}


flag XSoCh_Equal(const XSoCh* pVal1, const XSoCh* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XChc_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoCh_IsConstraintValid(const XSoCh* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_XSOCH;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XChc_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoCh_Initialize(XSoCh* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    XChc_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoCh_XER_Encode_aux(const XSoCh* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoCh_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOCH;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XChc_XER_Encode_aux((&(pVal->arr[i1])), NULL, pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOCH;
	        }
	    }
    }


    return ret;
}

flag XSoCh_XER_Encode(const XSoCh* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoCh_XER_Encode_aux(pVal, "XSoCh", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoCh_XER_Decode_aux(XSoCh* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 4) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOCH;
	            break;
	        }
		    ret = XChc_XER_Decode_aux((&(pVal->arr[i1])), NULL, pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOCH;


	return ret;
}

flag XSoCh_XER_Decode(XSoCh* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoCh_XER_Decode_aux(pVal, "XSoCh", pByteStrm, pErrCode);
}


flag XOid_Equal(const XOid* pVal1, const XOid* pVal2)
{
	return ObjectIdentifier_equal(pVal1, pVal2);

}

flag XOid_IsConstraintValid(const XOid* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ObjectIdentifier_isValid(pVal);
    *pErrCode = ret ? 0 :  ERR_XOID;

	return ret;
}

void XOid_Initialize(XOid* pVal)
{
	(void)pVal;


	pVal->nCount = 0;

}

flag XOid_XER_Encode_aux(const XOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XOid_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeObjectIdentifier(pByteStrm, xmlTag, pVal, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XOID;
    }


    return ret;
}

flag XOid_XER_Encode(const XOid* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XOid_XER_Encode_aux(pVal, "XOid", pByteStrm, pErrCode, bCheckConstraints);
}

flag XOid_XER_Decode_aux(XOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeObjectIdentifier(pByteStrm, xmlTag, pVal, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XOID;

	return ret;
}

flag XOid_XER_Decode(XOid* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XOid_XER_Decode_aux(pVal, "XOid", pByteStrm, pErrCode);
}


flag XSoOid_Equal(const XSoOid* pVal1, const XSoOid* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XOid_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoOid_IsConstraintValid(const XSoOid* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 3);
    *pErrCode = ret ? 0 :  ERR_XSOOID;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XOid_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoOid_Initialize(XSoOid* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    pVal->arr[i1].nCount = 0;

	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoOid_XER_Encode_aux(const XSoOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoOid_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOOID;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XOid_XER_Encode_aux((&(pVal->arr[i1])), "XOid", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOOID;
	        }
	    }
    }


    return ret;
}

flag XSoOid_XER_Encode(const XSoOid* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoOid_XER_Encode_aux(pVal, "XSoOid", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoOid_XER_Decode_aux(XSoOid* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 3) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOOID;
	            break;
	        }
		    ret = XOid_XER_Decode_aux((&(pVal->arr[i1])), "XOid", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOOID;


	return ret;
}

flag XSoOid_XER_Decode(XSoOid* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoOid_XER_Decode_aux(pVal, "XSoOid", pByteStrm, pErrCode);
}


flag XNul_Equal(const XNul* pVal1, const XNul* pVal2)
{
	(void)pVal1;
	(void)pVal2;
	return TRUE;

}

void XNul_Initialize(XNul* pVal)
{
	(void)pVal;


	(*(pVal)) = 0;
}

flag XNul_XER_Encode_aux(const XNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

    *pErrCode = 0;
    bCheckConstraints=bCheckConstraints;
    ret = Xer_EncodeNull(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XNUL;


    return ret;
}

flag XNul_XER_Encode(const XNul* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XNul_XER_Encode_aux(pVal, "XNul", pByteStrm, pErrCode, bCheckConstraints);
}

flag XNul_XER_Decode_aux(XNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeNull(pByteStrm, xmlTag, pVal, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XNUL;

	return ret;
}

flag XNul_XER_Decode(XNul* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XNul_XER_Decode_aux(pVal, "XNul", pByteStrm, pErrCode);
}


flag XSoNul_Equal(const XSoNul* pVal1, const XSoNul* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->nCount == pVal2->nCount);

	return ret;

}

flag XSoNul_IsConstraintValid(const XSoNul* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 3);
    *pErrCode = ret ? 0 :  ERR_XSONUL;

	return ret;
}

void XSoNul_Initialize(XSoNul* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    pVal->arr[i1] = 0;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoNul_XER_Encode_aux(const XSoNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoNul_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSONUL;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XNul_XER_Encode_aux((&(pVal->arr[i1])), "XNul", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSONUL;
	        }
	    }
    }


    return ret;
}

flag XSoNul_XER_Encode(const XSoNul* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoNul_XER_Encode_aux(pVal, "XSoNul", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoNul_XER_Decode_aux(XSoNul* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 3) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSONUL;
	            break;
	        }
		    ret = XNul_XER_Decode_aux((&(pVal->arr[i1])), "XNul", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSONUL;


	return ret;
}

flag XSoNul_XER_Decode(XSoNul* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoNul_XER_Decode_aux(pVal, "XSoNul", pByteStrm, pErrCode);
}


flag XSoInt_elem_Equal(const XSoInt_elem* pVal1, const XSoInt_elem* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XSoInt_Equal(const XSoInt* pVal1, const XSoInt* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XSoInt_elem_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoInt_elem_IsConstraintValid(const XSoInt_elem* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 1000UL);
    *pErrCode = ret ? 0 :  ERR_XSOINT_ELM;

	return ret;
}

flag XSoInt_IsConstraintValid(const XSoInt* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 12);
    *pErrCode = ret ? 0 :  ERR_XSOINT;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XSoInt_elem_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoInt_elem_Initialize(XSoInt_elem* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void XSoInt_Initialize(XSoInt* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 12) {
	    XSoInt_elem_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoInt_XER_Encode_aux(const XSoInt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoInt_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOINT;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = Xer_EncodePosInteger(pByteStrm, "XSoInt-elem", pVal->arr[i1], pErrCode, 1);
	    	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOINT_ELM;
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOINT;
	        }
	    }
    }


    return ret;
}

flag XSoInt_XER_Encode(const XSoInt* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoInt_XER_Encode_aux(pVal, "XSoInt", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoInt_XER_Decode_aux(XSoInt* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 12) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOINT;
	            break;
	        }
		    ret = Xer_DecodePosInteger(pByteStrm, "XSoInt-elem", (&(pVal->arr[i1])), pErrCode);
		    if (ret) {
		        ret = (pVal->arr[i1] <= 1000UL);
		    }*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOINT_ELM;
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOINT;


	return ret;
}

flag XSoInt_XER_Decode(XSoInt* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoInt_XER_Decode_aux(pVal, "XSoInt", pByteStrm, pErrCode);
}


flag XRec_Equal(const XRec* pVal1, const XRec* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->x_fb == pVal2->x_fb);

    if (ret) {
        ret = (pVal1->x_i1 == pVal2->x_i1);

        if (ret) {
            ret = (pVal1->exist.x_big == pVal2->exist.x_big);
            if (ret && pVal1->exist.x_big) {
            	ret = (pVal1->x_big == pVal2->x_big);
            }

            if (ret) {
                ret = (pVal1->x_semi == pVal2->x_semi);

                if (ret) {
                    ret = (pVal1->x_col == pVal2->x_col);

                    if (ret) {
                        ret = XOctF_Equal((&(pVal1->x_ofx)), (&(pVal2->x_ofx)));

                        if (ret) {
                            ret = XOctV_Equal((&(pVal1->x_ov)), (&(pVal2->x_ov)));

                            if (ret) {
                                ret = (pVal1->exist.x_bf == pVal2->exist.x_bf);
                                if (ret && pVal1->exist.x_bf) {
                                	ret = XBitF_Equal((&(pVal1->x_bf)), (&(pVal2->x_bf)));
                                }

                                if (ret) {
                                    ret = XBitV_Equal((&(pVal1->x_bv)), (&(pVal2->x_bv)));

                                    if (ret) {
                                        ret = (strcmp(pVal1->x_s, pVal2->x_s) == 0);

                                        if (ret) {
                                            ret = (strcmp(pVal1->x_sa, pVal2->x_sa) == 0);

                                            if (ret) {
                                                ret = XChc_Equal((&(pVal1->x_ch)), (&(pVal2->x_ch)));

                                                if (ret) {
                                                    ret = XSoInt_Equal((&(pVal1->x_so)), (&(pVal2->x_so)));

                                                    if (ret) {
                                                        ret = (Asn1Real_Equal(pVal1->x_r,pVal2->x_r));

                                                        if (ret) {
                                                            ret = XSoCol_Equal((&(pVal1->x_soc)), (&(pVal2->x_soc)));

                                                        }

                                                    }

                                                }

                                            }

                                        }

                                    }

                                }

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag XRec_IsConstraintValid(const XRec* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = XFlg_IsConstraintValid((&(pVal->x_fb)), pErrCode);
    if (ret) {
        ret = XI5_IsConstraintValid((&(pVal->x_i1)), pErrCode);
        if (ret) {
            if (pVal->exist.x_big) {
            	ret = XBig_IsConstraintValid((&(pVal->x_big)), pErrCode);
            }
            if (ret) {
                ret = XSemi_IsConstraintValid((&(pVal->x_semi)), pErrCode);
                if (ret) {
                    ret = XCol_IsConstraintValid((&(pVal->x_col)), pErrCode);
                    if (ret) {
                        ret = XOctF_IsConstraintValid((&(pVal->x_ofx)), pErrCode);
                        if (ret) {
                            ret = XOctV_IsConstraintValid((&(pVal->x_ov)), pErrCode);
                            if (ret) {
                                if (pVal->exist.x_bf) {
                                	ret = XBitF_IsConstraintValid((&(pVal->x_bf)), pErrCode);
                                }
                                if (ret) {
                                    ret = XBitV_IsConstraintValid((&(pVal->x_bv)), pErrCode);
                                    if (ret) {
                                        ret = XStrV_IsConstraintValid(pVal->x_s, pErrCode);
                                        if (ret) {
                                            ret = XStrA_IsConstraintValid(pVal->x_sa, pErrCode);
                                            if (ret) {
                                                ret = XChc_IsConstraintValid((&(pVal->x_ch)), pErrCode);
                                                if (ret) {
                                                    ret = XSoInt_IsConstraintValid((&(pVal->x_so)), pErrCode);
                                                    if (ret) {
                                                        ret = XRl_IsConstraintValid((&(pVal->x_r)), pErrCode);
                                                        if (ret) {
                                                            ret = XSoCol_IsConstraintValid((&(pVal->x_soc)), pErrCode);
                                                        }   /*COVERAGE_IGNORE*/
                                                    }   /*COVERAGE_IGNORE*/
                                                }   /*COVERAGE_IGNORE*/
                                            }   /*COVERAGE_IGNORE*/
                                        }   /*COVERAGE_IGNORE*/
                                    }   /*COVERAGE_IGNORE*/
                                }   /*COVERAGE_IGNORE*/
                            }   /*COVERAGE_IGNORE*/
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XRec_Initialize(XRec* pVal)
{
	(void)pVal;


	/*set x_fb */
	XFlg_Initialize((&(pVal->x_fb)));
	/*set x_i1 */
	XI5_Initialize((&(pVal->x_i1)));
	/*set x_big */
	pVal->exist.x_big = 1;
	XBig_Initialize((&(pVal->x_big)));
	/*set x_semi */
	XSemi_Initialize((&(pVal->x_semi)));
	/*set x_col */
	XCol_Initialize((&(pVal->x_col)));
	/*set x_ofx */
	XOctF_Initialize((&(pVal->x_ofx)));
	/*set x_ov */
	XOctV_Initialize((&(pVal->x_ov)));
	/*set x_bf */
	pVal->exist.x_bf = 1;
	XBitF_Initialize((&(pVal->x_bf)));
	/*set x_bv */
	XBitV_Initialize((&(pVal->x_bv)));
	/*set x_s */
	XStrV_Initialize(pVal->x_s);
	/*set x_sa */
	XStrA_Initialize(pVal->x_sa);
	/*set x_ch */
	XChc_Initialize((&(pVal->x_ch)));
	/*set x_so */
	XSoInt_Initialize((&(pVal->x_so)));
	/*set x_r */
	XRl_Initialize((&(pVal->x_r)));
	/*set x_soc */
	XSoCol_Initialize((&(pVal->x_soc)));
}

flag XRec_XER_Encode_aux(const XRec* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XRec_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XREC;
	    if (ret) {
	        /*Encode x_fb */
	        ret = XFlg_XER_Encode_aux((&(pVal->x_fb)), "x-fb", pByteStrm, pErrCode, FALSE);
	        if (ret) {
	            /*Encode x_i1 */
	            ret = XI5_XER_Encode_aux((&(pVal->x_i1)), "x-i1", pByteStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode x_big */
	                if (pVal->exist.x_big) {
	                	ret = XBig_XER_Encode_aux((&(pVal->x_big)), "x-big", pByteStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode x_semi */
	                    ret = XSemi_XER_Encode_aux((&(pVal->x_semi)), "x-semi", pByteStrm, pErrCode, FALSE);
	                    if (ret) {
	                        /*Encode x_col */
	                        ret = XCol_XER_Encode_aux((&(pVal->x_col)), "x-col", pByteStrm, pErrCode, FALSE);
	                        if (ret) {
	                            /*Encode x_ofx */
	                            ret = XOctF_XER_Encode_aux((&(pVal->x_ofx)), "x-ofx", pByteStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode x_ov */
	                                ret = XOctV_XER_Encode_aux((&(pVal->x_ov)), "x-ov", pByteStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    /*Encode x_bf */
	                                    if (pVal->exist.x_bf) {
	                                    	ret = XBitF_XER_Encode_aux((&(pVal->x_bf)), "x-bf", pByteStrm, pErrCode, FALSE);
	                                    }
	                                    if (ret) {
	                                        /*Encode x_bv */
	                                        ret = XBitV_XER_Encode_aux((&(pVal->x_bv)), "x-bv", pByteStrm, pErrCode, FALSE);
	                                        if (ret) {
	                                            /*Encode x_s */
	                                            ret = XStrV_XER_Encode_aux(pVal->x_s, "x-s", pByteStrm, pErrCode, FALSE);
	                                            if (ret) {
	                                                /*Encode x_sa */
	                                                ret = XStrA_XER_Encode_aux(pVal->x_sa, "x-sa", pByteStrm, pErrCode, FALSE);
	                                                if (ret) {
	                                                    /*Encode x_ch */
	                                                    ret = XChc_XER_Encode_aux((&(pVal->x_ch)), "x-ch", pByteStrm, pErrCode, FALSE);
	                                                    if (ret) {
	                                                        /*Encode x_so */
	                                                        ret = XSoInt_XER_Encode_aux((&(pVal->x_so)), "x-so", pByteStrm, pErrCode, FALSE);
	                                                        if (ret) {
	                                                            /*Encode x_r */
	                                                            ret = XRl_XER_Encode_aux((&(pVal->x_r)), "x-r", pByteStrm, pErrCode, FALSE);
	                                                            if (ret) {
	                                                                /*Encode x_soc */
	                                                                ret = XSoCol_XER_Encode_aux((&(pVal->x_soc)), "x-soc", pByteStrm, pErrCode, FALSE);
	                                                                if (ret) {
	                                                                    ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	                                                                    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XREC;
	                                                                }   /*COVERAGE_IGNORE*/
	                                                            }   /*COVERAGE_IGNORE*/
	                                                        }   /*COVERAGE_IGNORE*/
	                                                    }   /*COVERAGE_IGNORE*/
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    }


    return ret;
}

flag XRec_XER_Encode(const XRec* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XRec_XER_Encode_aux(pVal, "XRec", pByteStrm, pErrCode, bCheckConstraints);
}

flag XRec_XER_Decode_aux(XRec* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XREC;
	if (ret) {
	    /*Decode x_fb */
	    ret = Xer_NextStartElementIs(pByteStrm, "x-fb");
	    if (ret) {
	    	ret = XFlg_XER_Decode_aux((&(pVal->x_fb)), "x-fb", pByteStrm, pErrCode);
	    } else {
	    	*pErrCode = ERR_INVALID_XML_FILE;
	    }
	    if (ret) {
	        /*Decode x_i1 */
	        ret = Xer_NextStartElementIs(pByteStrm, "x-i1");
	        if (ret) {
	        	ret = XI5_XER_Decode_aux((&(pVal->x_i1)), "x-i1", pByteStrm, pErrCode);
	        } else {
	        	*pErrCode = ERR_INVALID_XML_FILE;
	        }
	        if (ret) {
	            /*Decode x_big */
	            pVal->exist.x_big = 0;
	            if (Xer_NextStartElementIs(pByteStrm, "x-big")) {
	            	pVal->exist.x_big = 1;
	            	ret = XBig_XER_Decode_aux((&(pVal->x_big)), "x-big", pByteStrm, pErrCode);
	            }
	            if (ret) {
	                /*Decode x_semi */
	                ret = Xer_NextStartElementIs(pByteStrm, "x-semi");
	                if (ret) {
	                	ret = XSemi_XER_Decode_aux((&(pVal->x_semi)), "x-semi", pByteStrm, pErrCode);
	                } else {
	                	*pErrCode = ERR_INVALID_XML_FILE;
	                }
	                if (ret) {
	                    /*Decode x_col */
	                    ret = Xer_NextStartElementIs(pByteStrm, "x-col");
	                    if (ret) {
	                    	ret = XCol_XER_Decode_aux((&(pVal->x_col)), "x-col", pByteStrm, pErrCode);
	                    } else {
	                    	*pErrCode = ERR_INVALID_XML_FILE;
	                    }
	                    if (ret) {
	                        /*Decode x_ofx */
	                        ret = Xer_NextStartElementIs(pByteStrm, "x-ofx");
	                        if (ret) {
	                        	ret = XOctF_XER_Decode_aux((&(pVal->x_ofx)), "x-ofx", pByteStrm, pErrCode);
	                        } else {
	                        	*pErrCode = ERR_INVALID_XML_FILE;
	                        }
	                        if (ret) {
	                            /*Decode x_ov */
	                            ret = Xer_NextStartElementIs(pByteStrm, "x-ov");
	                            if (ret) {
	                            	ret = XOctV_XER_Decode_aux((&(pVal->x_ov)), "x-ov", pByteStrm, pErrCode);
	                            } else {
	                            	*pErrCode = ERR_INVALID_XML_FILE;
	                            }
	                            if (ret) {
	                                /*Decode x_bf */
	                                pVal->exist.x_bf = 0;
	                                if (Xer_NextStartElementIs(pByteStrm, "x-bf")) {
	                                	pVal->exist.x_bf = 1;
	                                	ret = XBitF_XER_Decode_aux((&(pVal->x_bf)), "x-bf", pByteStrm, pErrCode);
	                                }
	                                if (ret) {
	                                    /*Decode x_bv */
	                                    ret = Xer_NextStartElementIs(pByteStrm, "x-bv");
	                                    if (ret) {
	                                    	ret = XBitV_XER_Decode_aux((&(pVal->x_bv)), "x-bv", pByteStrm, pErrCode);
	                                    } else {
	                                    	*pErrCode = ERR_INVALID_XML_FILE;
	                                    }
	                                    if (ret) {
	                                        /*Decode x_s */
	                                        ret = Xer_NextStartElementIs(pByteStrm, "x-s");
	                                        if (ret) {
	                                        	ret = XStrV_XER_Decode_aux(pVal->x_s, "x-s", pByteStrm, pErrCode);
	                                        } else {
	                                        	*pErrCode = ERR_INVALID_XML_FILE;
	                                        }
	                                        if (ret) {
	                                            /*Decode x_sa */
	                                            ret = Xer_NextStartElementIs(pByteStrm, "x-sa");
	                                            if (ret) {
	                                            	ret = XStrA_XER_Decode_aux(pVal->x_sa, "x-sa", pByteStrm, pErrCode);
	                                            } else {
	                                            	*pErrCode = ERR_INVALID_XML_FILE;
	                                            }
	                                            if (ret) {
	                                                /*Decode x_ch */
	                                                ret = Xer_NextStartElementIs(pByteStrm, "x-ch");
	                                                if (ret) {
	                                                	ret = XChc_XER_Decode_aux((&(pVal->x_ch)), "x-ch", pByteStrm, pErrCode);
	                                                } else {
	                                                	*pErrCode = ERR_INVALID_XML_FILE;
	                                                }
	                                                if (ret) {
	                                                    /*Decode x_so */
	                                                    ret = Xer_NextStartElementIs(pByteStrm, "x-so");
	                                                    if (ret) {
	                                                    	ret = XSoInt_XER_Decode_aux((&(pVal->x_so)), "x-so", pByteStrm, pErrCode);
	                                                    } else {
	                                                    	*pErrCode = ERR_INVALID_XML_FILE;
	                                                    }
	                                                    if (ret) {
	                                                        /*Decode x_r */
	                                                        ret = Xer_NextStartElementIs(pByteStrm, "x-r");
	                                                        if (ret) {
	                                                        	ret = XRl_XER_Decode_aux((&(pVal->x_r)), "x-r", pByteStrm, pErrCode);
	                                                        } else {
	                                                        	*pErrCode = ERR_INVALID_XML_FILE;
	                                                        }
	                                                        if (ret) {
	                                                            /*Decode x_soc */
	                                                            ret = Xer_NextStartElementIs(pByteStrm, "x-soc");
	                                                            if (ret) {
	                                                            	ret = XSoCol_XER_Decode_aux((&(pVal->x_soc)), "x-soc", pByteStrm, pErrCode);
	                                                            } else {
	                                                            	*pErrCode = ERR_INVALID_XML_FILE;
	                                                            }
	                                                            if (ret) {
	                                                                ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	                                                                *pErrCode = ret ? 0 : ERR_XER_DECODE_XREC;
	                                                            }   /*COVERAGE_IGNORE*/
	                                                        }   /*COVERAGE_IGNORE*/
	                                                    }   /*COVERAGE_IGNORE*/
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret;
}

flag XRec_XER_Decode(XRec* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XRec_XER_Decode_aux(pVal, "XRec", pByteStrm, pErrCode);
}


flag XLog_Equal(const XLog* pVal1, const XLog* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XRec_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XLog_IsConstraintValid(const XLog* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 3);
    *pErrCode = ret ? 0 :  ERR_XLOG;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XRec_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XLog_Initialize(XLog* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    XRec_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XLog_XER_Encode_aux(const XLog* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XLog_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XLOG;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XRec_XER_Encode_aux((&(pVal->arr[i1])), "XRec", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XLOG;
	        }
	    }
    }


    return ret;
}

flag XLog_XER_Encode(const XLog* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XLog_XER_Encode_aux(pVal, "XLog", pByteStrm, pErrCode, bCheckConstraints);
}

flag XLog_XER_Decode_aux(XLog* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 3) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XLOG;
	            break;
	        }
		    ret = XRec_XER_Decode_aux((&(pVal->arr[i1])), "XRec", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XLOG;


	return ret;
}

flag XLog_XER_Decode(XLog* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XLog_XER_Decode_aux(pVal, "XLog", pByteStrm, pErrCode);
}


flag XSoSo_Equal(const XSoSo* pVal1, const XSoSo* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XSoInt_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoSo_IsConstraintValid(const XSoSo* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 3));
    *pErrCode = ret ? 0 :  ERR_XSOSO;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XSoInt_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoSo_Initialize(XSoSo* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    XSoInt_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 1;
}

flag XSoSo_XER_Encode_aux(const XSoSo* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoSo_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOSO;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XSoInt_XER_Encode_aux((&(pVal->arr[i1])), "XSoInt", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOSO;
	        }
	    }
    }


    return ret;
}

flag XSoSo_XER_Encode(const XSoSo* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoSo_XER_Encode_aux(pVal, "XSoSo", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoSo_XER_Decode_aux(XSoSo* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 3) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOSO;
	            break;
	        }
		    ret = XSoInt_XER_Decode_aux((&(pVal->arr[i1])), "XSoInt", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOSO;


	return ret;
}

flag XSoSo_XER_Decode(XSoSo* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoSo_XER_Decode_aux(pVal, "XSoSo", pByteStrm, pErrCode);
}


flag XText_Equal(const XText pVal1, const XText pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag XText_IsConstraintValid(const XText pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 60);
    *pErrCode = ret ? 0 :  ERR_XTEXT;

	return ret;
}

void XText_Initialize(XText pVal)
{
	(void)pVal;


	memset(pVal, ' ', 60);
	pVal[60] = 0;

}

flag XText_XER_Encode_aux(const XText pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XText_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeString(pByteStrm, xmlTag, pVal, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XTEXT;
    }


    return ret;
}

flag XText_XER_Encode(const XText pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XText_XER_Encode_aux(pVal, "XText", pByteStrm, pErrCode, bCheckConstraints);
}

flag XText_XER_Decode_aux(XText pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeString(pByteStrm, xmlTag, pVal, 60 + 1, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XTEXT;

	return ret;
}

flag XText_XER_Decode(XText pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XText_XER_Decode_aux(pVal, "XText", pByteStrm, pErrCode);
}


flag XSoStr_Equal(const XSoStr* pVal1, const XSoStr* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (strcmp(pVal1->arr[i1], pVal2->arr[i1]) == 0);
    }

	return ret;

}

flag XSoStr_IsConstraintValid(const XSoStr* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_XSOSTR;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XText_IsConstraintValid(pVal->arr[i1], pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoStr_Initialize(XSoStr* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    memset(pVal->arr[i1], ' ', 60);
	    pVal->arr[i1][60] = 0;

	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoStr_XER_Encode_aux(const XSoStr* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoStr_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOSTR;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XText_XER_Encode_aux(pVal->arr[i1], "XText", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOSTR;
	        }
	    }
    }


    return ret;
}

flag XSoStr_XER_Encode(const XSoStr* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoStr_XER_Encode_aux(pVal, "XSoStr", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoStr_XER_Decode_aux(XSoStr* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 4) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOSTR;
	            break;
	        }
		    ret = XText_XER_Decode_aux(pVal->arr[i1], "XText", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOSTR;


	return ret;
}

flag XSoStr_XER_Decode(XSoStr* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoStr_XER_Decode_aux(pVal, "XSoStr", pByteStrm, pErrCode);
}


flag XChr_Equal(const XChr pVal1, const XChr pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag XChr_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && (((((((((((((((strchr("<", str[i])) || (strchr(">", str[i])))) || (strchr("&", str[i])))) || (strchr("\"", str[i])))) || (strchr("'", str[i])))) || (strchr(";", str[i])))) || (strchr(" ", str[i])))) || (strchr("-", str[i]))));
        i = i + 1;
    }
    return ret;
}
flag XChr_IsConstraintValid(const XChr pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((3 <= strlen(pVal)) && (strlen(pVal) <= 9));
    if (ret) {
        ret = XChr_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_XCHR;

	return ret;
}

void XChr_Initialize(XChr pVal)
{
	(void)pVal;


	memset(pVal, ' ', 9);
	pVal[9] = 0;

}

flag XChr_XER_Encode_aux(const XChr pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XChr_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeString(pByteStrm, xmlTag, pVal, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XCHR;
    }


    return ret;
}

flag XChr_XER_Encode(const XChr pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XChr_XER_Encode_aux(pVal, "XChr", pByteStrm, pErrCode, bCheckConstraints);
}

flag XChr_XER_Decode_aux(XChr pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeString(pByteStrm, xmlTag, pVal, 9 + 1, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XCHR;

	return ret;
}

flag XChr_XER_Decode(XChr pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XChr_XER_Decode_aux(pVal, "XChr", pByteStrm, pErrCode);
}


flag XNum_Equal(const XNum pVal1, const XNum pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag XNum_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && (strchr(" 0123456789", str[i]));
        i = i + 1;
    }
    return ret;
}
flag XNum_IsConstraintValid(const XNum pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = XNum_CharsAreValid_0(pVal);
    if (ret) {
        ret = ((1 <= strlen(pVal)) && (strlen(pVal) <= 9));
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_XNUM;

	return ret;
}

void XNum_Initialize(XNum pVal)
{
	(void)pVal;


	memset(pVal, ' ', 9);
	pVal[9] = 0;

}

flag XNum_XER_Encode_aux(const XNum pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XNum_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeString(pByteStrm, xmlTag, pVal, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XNUM;
    }


    return ret;
}

flag XNum_XER_Encode(const XNum pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XNum_XER_Encode_aux(pVal, "XNum", pByteStrm, pErrCode, bCheckConstraints);
}

flag XNum_XER_Decode_aux(XNum pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeString(pByteStrm, xmlTag, pVal, 9 + 1, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XNUM;

	return ret;
}

flag XNum_XER_Decode(XNum pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XNum_XER_Decode_aux(pVal, "XNum", pByteStrm, pErrCode);
}


flag XOctL_Equal(const XOctL* pVal1, const XOctL* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag XOctL_IsConstraintValid(const XOctL* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 700);
    *pErrCode = ret ? 0 :  ERR_XOCTL;

	return ret;
}

void XOctL_Initialize(XOctL* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 700);
	pVal->nCount = 0;

}

flag XOctL_XER_Encode_aux(const XOctL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XOctL_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeOctetString(pByteStrm, xmlTag, pVal->arr, pVal->nCount, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XOCTL;
    }


    return ret;
}

flag XOctL_XER_Encode(const XOctL* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XOctL_XER_Encode_aux(pVal, "XOctL", pByteStrm, pErrCode, bCheckConstraints);
}

flag XOctL_XER_Decode_aux(XOctL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeOctetString(pByteStrm, xmlTag, pVal->arr, 700, &pVal->nCount, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XOCTL;

	return ret;
}

flag XOctL_XER_Decode(XOctL* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XOctL_XER_Decode_aux(pVal, "XOctL", pByteStrm, pErrCode);
}


flag XBitL_Equal(const XBitL* pVal1, const XBitL* pVal2)
{
	return     (pVal1->nCount == pVal2->nCount) &&
    (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount/8) == 0) &&
    (pVal1->nCount % 8 > 0 ? (pVal1->arr[pVal1->nCount/8] >> (8-pVal1->nCount % 8) == pVal2->arr[pVal1->nCount/8]>>(8-pVal1->nCount % 8) ) : TRUE)
;

}

flag XBitL_IsConstraintValid(const XBitL* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 2500);
    *pErrCode = ret ? 0 :  ERR_XBITL;

	return ret;
}

void XBitL_Initialize(XBitL* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 2504/8);

	pVal->nCount = 0;
}

flag XBitL_XER_Encode_aux(const XBitL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XBitL_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeBitString(pByteStrm, xmlTag, pVal->arr, pVal->nCount, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XBITL;
    }


    return ret;
}

flag XBitL_XER_Encode(const XBitL* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XBitL_XER_Encode_aux(pVal, "XBitL", pByteStrm, pErrCode, bCheckConstraints);
}

flag XBitL_XER_Decode_aux(XBitL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeBitString(pByteStrm, xmlTag, pVal->arr, 2500, &pVal->nCount, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XBITL;

	return ret;
}

flag XBitL_XER_Decode(XBitL* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XBitL_XER_Decode_aux(pVal, "XBitL", pByteStrm, pErrCode);
}


flag XOctE_Equal(const XOctE* pVal1, const XOctE* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag XOctE_IsConstraintValid(const XOctE* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((2 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 3));
    *pErrCode = ret ? 0 :  ERR_XOCTE;

	return ret;
}

void XOctE_Initialize(XOctE* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 3);
	pVal->nCount = 2;

}

flag XOctE_XER_Encode_aux(const XOctE* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XOctE_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeOctetString(pByteStrm, xmlTag, pVal->arr, pVal->nCount, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XOCTE;
    }


    return ret;
}

flag XOctE_XER_Encode(const XOctE* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XOctE_XER_Encode_aux(pVal, "XOctE", pByteStrm, pErrCode, bCheckConstraints);
}

flag XOctE_XER_Decode_aux(XOctE* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeOctetString(pByteStrm, xmlTag, pVal->arr, 3, &pVal->nCount, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XOCTE;

	return ret;
}

flag XOctE_XER_Decode(XOctE* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XOctE_XER_Decode_aux(pVal, "XOctE", pByteStrm, pErrCode);
}


flag XStrL_Equal(const XStrL pVal1, const XStrL pVal2)
{
	return strcmp(pVal1, pVal2) == 0;

}

flag XStrL_CharsAreValid_0(const char* str)
{
    flag ret=TRUE;
    int i=0;

    while ((str[i] != '\0') && ret) {
        ret = ret && ((('A' <= str[i]) && (str[i] <= 'Z')));
        i = i + 1;
    }
    return ret;
}
flag XStrL_IsConstraintValid(const XStrL pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (strlen(pVal) <= 5200);
    if (ret) {
        ret = XStrL_CharsAreValid_0(pVal);
    }   /*COVERAGE_IGNORE*/
    *pErrCode = ret ? 0 :  ERR_XSTRL;

	return ret;
}

void XStrL_Initialize(XStrL pVal)
{
	(void)pVal;


	memset(pVal, 'A', 5200);
	pVal[5200] = 0;

}

flag XStrL_XER_Encode_aux(const XStrL pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XStrL_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeString(pByteStrm, xmlTag, pVal, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSTRL;
    }


    return ret;
}

flag XStrL_XER_Encode(const XStrL pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XStrL_XER_Encode_aux(pVal, "XStrL", pByteStrm, pErrCode, bCheckConstraints);
}

flag XStrL_XER_Decode_aux(XStrL pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeString(pByteStrm, xmlTag, pVal, 5200 + 1, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSTRL;

	return ret;
}

flag XStrL_XER_Decode(XStrL pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XStrL_XER_Decode_aux(pVal, "XStrL", pByteStrm, pErrCode);
}


flag XUns_Equal(const XUns* pVal1, const XUns* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XUns_IsConstraintValid(const XUns* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void XUns_Initialize(XUns* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag XUns_XER_Encode_aux(const XUns* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XUns_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodePosInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XUNS;
    }


    return ret;
}

flag XUns_XER_Encode(const XUns* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XUns_XER_Encode_aux(pVal, "XUns", pByteStrm, pErrCode, bCheckConstraints);
}

flag XUns_XER_Decode_aux(XUns* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodePosInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = true;
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XUNS;

	return ret;
}

flag XUns_XER_Decode(XUns* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XUns_XER_Decode_aux(pVal, "XUns", pByteStrm, pErrCode);
}


flag XNeg_Equal(const XNeg* pVal1, const XNeg* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XNeg_IsConstraintValid(const XNeg* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 5LL);
    *pErrCode = ret ? 0 :  ERR_XNEG;

	return ret;
}

void XNeg_Initialize(XNeg* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag XNeg_XER_Encode_aux(const XNeg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XNeg_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XNEG;
    }


    return ret;
}

flag XNeg_XER_Encode(const XNeg* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XNeg_XER_Encode_aux(pVal, "XNeg", pByteStrm, pErrCode, bCheckConstraints);
}

flag XNeg_XER_Decode_aux(XNeg* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = ((*(pVal)) <= 5LL);
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XNEG;

	return ret;
}

flag XNeg_XER_Decode(XNeg* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XNeg_XER_Decode_aux(pVal, "XNeg", pByteStrm, pErrCode);
}


flag XOne_Equal(const XOne* pVal1, const XOne* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XOne_IsConstraintValid(const XOne* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((7UL <= (*(pVal))) && ((*(pVal)) <= 7UL));
    *pErrCode = ret ? 0 :  ERR_XONE;

	return ret;
}

void XOne_Initialize(XOne* pVal)
{
	(void)pVal;


	(*(pVal)) = 7UL;
}

flag XOne_XER_Encode_aux(const XOne* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XOne_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodePosInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XONE;
    }


    return ret;
}

flag XOne_XER_Encode(const XOne* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XOne_XER_Encode_aux(pVal, "XOne", pByteStrm, pErrCode, bCheckConstraints);
}

flag XOne_XER_Decode_aux(XOne* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodePosInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = ((7UL <= (*(pVal))) && ((*(pVal)) <= 7UL));
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XONE;

	return ret;
}

flag XOne_XER_Decode(XOne* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XOne_XER_Decode_aux(pVal, "XOne", pByteStrm, pErrCode);
}


flag XU64_Equal(const XU64* pVal1, const XU64* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XU64_IsConstraintValid(const XU64* pVal, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
    ret = TRUE;
    *pErrCode = 0;

	return ret;
}

void XU64_Initialize(XU64* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}

flag XU64_XER_Encode_aux(const XU64* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XU64_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodePosInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XU64;
    }


    return ret;
}

flag XU64_XER_Encode(const XU64* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XU64_XER_Encode_aux(pVal, "XU64", pByteStrm, pErrCode, bCheckConstraints);
}

flag XU64_XER_Decode_aux(XU64* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodePosInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = true;
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XU64;

	return ret;
}

flag XU64_XER_Decode(XU64* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XU64_XER_Decode_aux(pVal, "XU64", pByteStrm, pErrCode);
}


flag XI32_Equal(const XI32* pVal1, const XI32* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XI32_IsConstraintValid(const XI32* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-2147483648LL <= (*(pVal))) && ((*(pVal)) <= 2147483647LL));
    *pErrCode = ret ? 0 :  ERR_XI32;

	return ret;
}

void XI32_Initialize(XI32* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}

flag XI32_XER_Encode_aux(const XI32* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XI32_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeInteger(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XI32;
    }


    return ret;
}

flag XI32_XER_Encode(const XI32* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XI32_XER_Encode_aux(pVal, "XI32", pByteStrm, pErrCode, bCheckConstraints);
}

flag XI32_XER_Decode_aux(XI32* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeInteger(pByteStrm, xmlTag, pVal, pErrCode);
	if (ret) {
	    ret = ((-2147483648LL <= (*(pVal))) && ((*(pVal)) <= 2147483647LL));
	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XI32;

	return ret;
}

flag XI32_XER_Decode(XI32* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XI32_XER_Decode_aux(pVal, "XI32", pByteStrm, pErrCode);
}


flag XRlC_Equal(const XRlC* pVal1, const XRlC* pVal2)
{
	return Asn1Real_Equal((*(pVal1)),(*(pVal2)));

}

flag XRlC_IsConstraintValid(const XRlC* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-1.0000000000000000000E+001 <= (*(pVal))) && ((*(pVal)) <= 1.0500000000000000000E+001));
    *pErrCode = ret ? 0 :  ERR_XRLC;

	return ret;
}

void XRlC_Initialize(XRlC* pVal)
{
	(void)pVal;


	(*(pVal)) = 0.0000000000000000000E+000;
}

flag XRlC_XER_Encode_aux(const XRlC* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XRlC_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeReal(pByteStrm, xmlTag, (*(pVal)), pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XRLC;
    }


    return ret;
}

flag XRlC_XER_Encode(const XRlC* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XRlC_XER_Encode_aux(pVal, "XRlC", pByteStrm, pErrCode, bCheckConstraints);
}

flag XRlC_XER_Decode_aux(XRlC* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeReal(pByteStrm, xmlTag, pVal, pErrCode);
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XRLC;

	return ret;
}

flag XRlC_XER_Decode(XRlC* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XRlC_XER_Decode_aux(pVal, "XRlC", pByteStrm, pErrCode);
}


flag XEnumL_Equal(const XEnumL* pVal1, const XEnumL* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XEnumL_IsConstraintValid(const XEnumL* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((((((((*(pVal)) == xe_long1)) || (((*(pVal)) == xe_longlong2)))) || (((*(pVal)) == xe_longlonglonglonglong5)))) || (((*(pVal)) == xe_longlonglonglonglonglonglonglonglonglonglong11)))) || (((*(pVal)) == xe_longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22)));
    *pErrCode = ret ? 0 :  ERR_XENUML;

	return ret;
}

void XEnumL_Initialize(XEnumL* pVal)
{
	(void)pVal;


	(*(pVal)) = xe_long1;
}

flag XEnumL_XER_Encode_aux(const XEnumL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XEnumL_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    switch((*(pVal)))
	    {
	        case xe_long1:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xe-long1", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XENUML;
	        	break;
	        case xe_longlong2:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xe-longlong2", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XENUML;
	        	break;
	        case xe_longlonglonglonglong5:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xe-longlonglonglonglong5", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XENUML;
	        	break;
	        case xe_longlonglonglonglonglonglonglonglonglonglong11:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xe-longlonglonglonglonglonglonglonglonglonglong11", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XENUML;
	        	break;
	        case xe_longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22:
	        	ret = Xer_EncodeEnumerated(pByteStrm, xmlTag, "xe-longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22", pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XENUML;
	        	break;
	        default:
	    	    *pErrCode = ERR_XER_ENCODE_XENUML; /*COVERAGE_IGNORE*/
	    	    ret = FALSE;  /*COVERAGE_IGNORE*/
	    }
    }


    return ret;
}

flag XEnumL_XER_Encode(const XEnumL* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XEnumL_XER_Encode_aux(pVal, "XEnumL", pByteStrm, pErrCode, bCheckConstraints);
}

flag XEnumL_XER_Decode_aux(XEnumL* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	{
		char enmLabel[200];
		ret = Xer_DecodeEnumerated(pByteStrm, xmlTag, enmLabel, pErrCode);
	    if (ret) {
	        if(strcmp(enmLabel,"xe-long1") == 0)
	            (*(pVal)) = xe_long1;
	        else if(strcmp(enmLabel,"xe-longlong2") == 0)
	            (*(pVal)) = xe_longlong2;
	        else if(strcmp(enmLabel,"xe-longlonglonglonglong5") == 0)
	            (*(pVal)) = xe_longlonglonglonglong5;
	        else if(strcmp(enmLabel,"xe-longlonglonglonglonglonglonglonglonglonglong11") == 0)
	            (*(pVal)) = xe_longlonglonglonglonglonglonglonglonglonglong11;
	        else if(strcmp(enmLabel,"xe-longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22") == 0)
	            (*(pVal)) = xe_longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong22;
		    else {
			    ret = FALSE; /*COVERAGE_IGNORE*/
			    *pErrCode = ERR_XER_DECODE_XENUML; /*COVERAGE_IGNORE*/
		    }
	    } else {
	        *pErrCode = ERR_XER_DECODE_XENUML; /*COVERAGE_IGNORE*/
	    }
		*pErrCode = ret  ? 0 : ERR_XER_DECODE_XENUML;
	}

	return ret;
}

flag XEnumL_XER_Decode(XEnumL* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XEnumL_XER_Decode_aux(pVal, "XEnumL", pByteStrm, pErrCode);
}


flag XSoEn_Equal(const XSoEn* pVal1, const XSoEn* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag XSoEn_IsConstraintValid(const XSoEn* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = ((1 <= ((unsigned int)pVal->nCount)) && (((unsigned int)pVal->nCount) <= 5));
    *pErrCode = ret ? 0 :  ERR_XSOEN;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XEnumL_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoEn_Initialize(XSoEn* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 5) {
	    pVal->arr[i1] = xe_long1;
	    i1 = i1 + 1;
	}
	pVal->nCount = 1;
}

flag XSoEn_XER_Encode_aux(const XSoEn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoEn_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOEN;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = XEnumL_XER_Encode_aux((&(pVal->arr[i1])), "XEnumL", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOEN;
	        }
	    }
    }


    return ret;
}

flag XSoEn_XER_Encode(const XSoEn* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoEn_XER_Encode_aux(pVal, "XSoEn", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoEn_XER_Decode_aux(XSoEn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 5) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOEN;
	            break;
	        }
		    ret = XEnumL_XER_Decode_aux((&(pVal->arr[i1])), "XEnumL", pByteStrm, pErrCode);
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOEN;


	return ret;
}

flag XSoEn_XER_Decode(XSoEn* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoEn_XER_Decode_aux(pVal, "XSoEn", pByteStrm, pErrCode);
}


flag XSoFix_elem_Equal(const XSoFix_elem* pVal1, const XSoFix_elem* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XSoFix_Equal(const XSoFix* pVal1, const XSoFix* pVal2)
{
	flag ret=TRUE;
    int i1;

    for(i1 = 0; ret && i1 < 4; i1++)
    {
    	ret = XSoFix_elem_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoFix_elem_IsConstraintValid(const XSoFix_elem* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-3LL <= (*(pVal))) && ((*(pVal)) <= 300LL));
    *pErrCode = ret ? 0 :  ERR_XSOFIX_ELM;

	return ret;
}

flag XSoFix_IsConstraintValid(const XSoFix* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    for(i1 = 0; ret && i1 < 4; i1++)
    {
    	ret = XSoFix_elem_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
    }

	return ret;
}

void XSoFix_elem_Initialize(XSoFix_elem* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}
void XSoFix_Initialize(XSoFix* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    XSoFix_elem_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}

}

flag XSoFix_XER_Encode_aux(const XSoFix* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoFix_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOFIX;
	    if (ret) {
	        for(i1=0;((i1 < 4) && ret);i1++)
	        {
	    	    ret = Xer_EncodeInteger(pByteStrm, "XSoFix-elem", pVal->arr[i1], pErrCode, 1);
	    	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOFIX_ELM;
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOFIX;
	        }
	    }
    }


    return ret;
}

flag XSoFix_XER_Encode(const XSoFix* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoFix_XER_Encode_aux(pVal, "XSoFix", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoFix_XER_Decode_aux(XSoFix* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 4) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOFIX;
	            break;
	        }
		    ret = Xer_DecodeInteger(pByteStrm, "XSoFix-elem", (&(pVal->arr[i1])), pErrCode);
		    if (ret) {
		        ret = ((-3LL <= pVal->arr[i1]) && (pVal->arr[i1] <= 300LL));
		    }*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOFIX_ELM;
		    i1++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	ret = ret && i1 == 4;
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XSOFIX;


	return ret;
}

flag XSoFix_XER_Decode(XSoFix* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoFix_XER_Decode_aux(pVal, "XSoFix", pByteStrm, pErrCode);
}


flag XSoB_Equal(const XSoB* pVal1, const XSoB* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = (pVal1->arr[i1] == pVal2->arr[i1]);
    }

	return ret;

}

flag XSoB_IsConstraintValid(const XSoB* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 6);
    *pErrCode = ret ? 0 :  ERR_XSOB;

	return ret;
}

void XSoB_Initialize(XSoB* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 6) {
	    pVal->arr[i1] = FALSE;
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoB_XER_Encode_aux(const XSoB* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoB_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOB;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = Xer_EncodeBoolean(pByteStrm, "", pVal->arr[i1], pErrCode, 1);
	    	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOB_ELM;
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOB;
	        }
	    }
    }


    return ret;
}

flag XSoB_XER_Encode(const XSoB* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoB_XER_Encode_aux(pVal, "XSoB", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoB_XER_Decode_aux(XSoB* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 6) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOB;
	            break;
	        }
		    ret = Xer_DecodeBoolean(pByteStrm, "", (&(pVal->arr[i1])), pErrCode);
		    *pErrCode = ret ? 0 : ERR_XER_DECODE_XSOB_ELM;
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOB;


	return ret;
}

flag XSoB_XER_Decode(XSoB* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoB_XER_Decode_aux(pVal, "XSoB", pByteStrm, pErrCode);
}


flag XCh2_y_in_Equal(const XCh2_y_in* pVal1, const XCh2_y_in* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XCh2_Equal(const XCh2* pVal1, const XCh2* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->kind == pVal2->kind);
    if (ret) {
    	switch(pVal1->kind)
    	{
    	case y_ch_PRESENT:
    		ret = XChc_Equal((&(pVal1->u.y_ch)), (&(pVal2->u.y_ch)));
    		break;
    	case y_en_PRESENT:
    		ret = (pVal1->u.y_en == pVal2->u.y_en);
    		break;
    	case y_so_PRESENT:
    		ret = XSoPt_Equal((&(pVal1->u.y_so)), (&(pVal2->u.y_so)));
    		break;
    	case y_nu_PRESENT:
    		ret = TRUE;
    		break;
    	case y_oi_PRESENT:
    		ret = XOid_Equal((&(pVal1->u.y_oi)), (&(pVal2->u.y_oi)));
    		break;
    	case y_in_PRESENT:
    		ret = XCh2_y_in_Equal((&(pVal1->u.y_in)), (&(pVal2->u.y_in)));
    		break;
    	case y_bo_PRESENT:
    		ret = (pVal1->u.y_bo == pVal2->u.y_bo);
    		break;
    	case y_lo_PRESENT:
    		ret = XSoB_Equal((&(pVal1->u.y_lo)), (&(pVal2->u.y_lo)));
    		break;
    	default: /*COVERAGE_IGNORE*/
    		ret = FALSE;    /*COVERAGE_IGNORE*/
    	}
    } /*COVERAGE_IGNORE*/
	return ret;

}

flag XCh2_y_in_IsConstraintValid(const XCh2_y_in* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((-9LL <= (*(pVal))) && ((*(pVal)) <= 9LL));
    *pErrCode = ret ? 0 :  ERR_XCH2_Y_IN;

	return ret;
}

flag XCh2_IsConstraintValid(const XCh2* pVal, int* pErrCode)
{
    flag ret = TRUE;
    switch (pVal->kind) {
        case y_ch_PRESENT : 
            ret = XChc_IsConstraintValid((&(pVal->u.y_ch)), pErrCode);
            break;          
        case y_en_PRESENT : 
            ret = XEnumL_IsConstraintValid((&(pVal->u.y_en)), pErrCode);
            break;          
        case y_so_PRESENT : 
            ret = XSoPt_IsConstraintValid((&(pVal->u.y_so)), pErrCode);
            break;          
        case y_nu_PRESENT : /*COVERAGE_IGNORE*/
            ret = TRUE;
            *pErrCode = 0;
            break;          /*COVERAGE_IGNORE*/
        case y_oi_PRESENT : 
            ret = XOid_IsConstraintValid((&(pVal->u.y_oi)), pErrCode);
            break;          
        case y_in_PRESENT : 
            ret = XCh2_y_in_IsConstraintValid((&(pVal->u.y_in)), pErrCode);
            break;          
        case y_bo_PRESENT : /*COVERAGE_IGNORE*/
            ret = TRUE;
            *pErrCode = 0;
            break;          /*COVERAGE_IGNORE*/
        case y_lo_PRESENT : 
            ret = XSoB_IsConstraintValid((&(pVal->u.y_lo)), pErrCode);
            break;          
        default: /*COVERAGE_IGNORE*/
    	    *pErrCode = ERR_XCH2;      /*COVERAGE_IGNORE*/
    	    ret = FALSE;                               /*COVERAGE_IGNORE*/
    }

	return ret;
}

void XCh2_y_in_Initialize(XCh2_y_in* pVal)
{
	(void)pVal;


	(*(pVal)) = 0LL;
}
void XCh2_Initialize(XCh2* pVal)
{
	(void)pVal;


	pVal->kind = y_ch_PRESENT;
	XChc_Initialize((&(pVal->u.y_ch)));
}

flag XCh2_XER_Encode_aux(const XCh2* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	ret = bCheckConstraints ? XCh2_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* CHOICE Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XCH2;
	    if (ret) {
	        switch(pVal->kind)
	        {
	            case y_ch_PRESENT:
	            	ret = XChc_XER_Encode_aux((&(pVal->u.y_ch)), "y-ch", pByteStrm, pErrCode, FALSE);
	            	break;
	            case y_en_PRESENT:
	            	ret = XEnumL_XER_Encode_aux((&(pVal->u.y_en)), "y-en", pByteStrm, pErrCode, FALSE);
	            	break;
	            case y_so_PRESENT:
	            	ret = XSoPt_XER_Encode_aux((&(pVal->u.y_so)), "y-so", pByteStrm, pErrCode, FALSE);
	            	break;
	            case y_nu_PRESENT:
	            	ret = XNul_XER_Encode_aux((&(pVal->u.y_nu)), "y-nu", pByteStrm, pErrCode, FALSE);
	            	break;
	            case y_oi_PRESENT:
	            	ret = XOid_XER_Encode_aux((&(pVal->u.y_oi)), "y-oi", pByteStrm, pErrCode, FALSE);
	            	break;
	            case y_in_PRESENT:
	            	ret = Xer_EncodeInteger(pByteStrm, "y-in", pVal->u.y_in, pErrCode, 1);
	            	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XCH2_Y_IN;
	            	break;
	            case y_bo_PRESENT:
	            	ret = Xer_EncodeBoolean(pByteStrm, "y-bo", pVal->u.y_bo, pErrCode, 1);
	            	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XCH2_Y_BO;
	            	break;
	            case y_lo_PRESENT:
	            	ret = XSoB_XER_Encode_aux((&(pVal->u.y_lo)), "y-lo", pByteStrm, pErrCode, FALSE);
	            	break;
	            default:
	        	    *pErrCode = ERR_XER_ENCODE_XCH2;
	                ret = FALSE;
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	    		*pErrCode = ret ? 0 : ERR_XER_ENCODE_XCH2;
	        }
	    }
    }


    return ret;
}

flag XCh2_XER_Encode(const XCh2* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XCh2_XER_Encode_aux(pVal, "XCh2", pByteStrm, pErrCode, bCheckConstraints);
}

flag XCh2_XER_Decode_aux(XCh2* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* CHOICE Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XCH2;
	if (ret) {
	    {
	    	char nextTag[256];
	    	ret = Xer_LA_NextElementTag(pByteStrm, nextTag);
	    	if (ret) {
	    		if (strcmp(nextTag, "y-ch") == 0) {
	    		    pVal->kind = y_ch_PRESENT;
	    		    ret = XChc_XER_Decode_aux((&(pVal->u.y_ch)), "y-ch", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "y-en") == 0) {
	    		    pVal->kind = y_en_PRESENT;
	    		    ret = XEnumL_XER_Decode_aux((&(pVal->u.y_en)), "y-en", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "y-so") == 0) {
	    		    pVal->kind = y_so_PRESENT;
	    		    ret = XSoPt_XER_Decode_aux((&(pVal->u.y_so)), "y-so", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "y-nu") == 0) {
	    		    pVal->kind = y_nu_PRESENT;
	    		    ret = XNul_XER_Decode_aux((&(pVal->u.y_nu)), "y-nu", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "y-oi") == 0) {
	    		    pVal->kind = y_oi_PRESENT;
	    		    ret = XOid_XER_Decode_aux((&(pVal->u.y_oi)), "y-oi", pByteStrm, pErrCode);
	    		}
	    		else if (strcmp(nextTag, "y-in") == 0) {
	    		    pVal->kind = y_in_PRESENT;
	    		    ret = Xer_DecodeInteger(pByteStrm, "y-in", (&(pVal->u.y_in)), pErrCode);
	    		    if (ret) {
	    		        ret = ((-9LL <= pVal->u.y_in) && (pVal->u.y_in <= 9LL));
	    		    }*pErrCode = ret  ? 0 : ERR_XER_DECODE_XCH2_Y_IN;
	    		}
	    		else if (strcmp(nextTag, "y-bo") == 0) {
	    		    pVal->kind = y_bo_PRESENT;
	    		    ret = Xer_DecodeBoolean(pByteStrm, "y-bo", (&(pVal->u.y_bo)), pErrCode);
	    		    *pErrCode = ret ? 0 : ERR_XER_DECODE_XCH2_Y_BO;
	    		}
	    		else if (strcmp(nextTag, "y-lo") == 0) {
	    		    pVal->kind = y_lo_PRESENT;
	    		    ret = XSoB_XER_Decode_aux((&(pVal->u.y_lo)), "y-lo", pByteStrm, pErrCode);
	    		}
	            else {
	                ret = FALSE;
	                *pErrCode = ERR_XER_DECODE_XCH2;
	            }
	    	} else {
	    		*pErrCode = ERR_XER_DECODE_XCH2;
	    	}
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	        *pErrCode = ret ? 0 : ERR_XER_DECODE_XCH2;
	    }
	}

	return ret;
}

flag XCh2_XER_Decode(XCh2* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XCh2_XER_Decode_aux(pVal, "XCh2", pByteStrm, pErrCode);
}


flag XMis_m_in_z_b_Equal(const XMis_m_in_z_b* pVal1, const XMis_m_in_z_b* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XMis_m_in_z_c_Equal(const XMis_m_in_z_c* pVal1, const XMis_m_in_z_c* pVal2)
{
	return (pVal1->nCount == pVal2->nCount) && (memcmp(pVal1->arr, pVal2->arr, pVal1->nCount) ==0);

}

flag XMis_m_in_Equal(const XMis_m_in* pVal1, const XMis_m_in* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->z_a == pVal2->z_a);

    if (ret) {
        ret = (pVal1->exist.z_b == pVal2->exist.z_b);
        if (ret && pVal1->exist.z_b) {
        	ret = XMis_m_in_z_b_Equal((&(pVal1->z_b)), (&(pVal2->z_b)));
        }

        if (ret) {
            ret = XMis_m_in_z_c_Equal((&(pVal1->z_c)), (&(pVal2->z_c)));

        }

    }

	return ret;

}

flag XMis_m_ino_elem_Equal(const XMis_m_ino_elem* pVal1, const XMis_m_ino_elem* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XMis_m_ino_Equal(const XMis_m_ino* pVal1, const XMis_m_ino* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XMis_m_ino_elem_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XMis_m_inc_Equal(const XMis_m_inc* pVal1, const XMis_m_inc* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XMis_Equal(const XMis* pVal1, const XMis* pVal2)
{
	flag ret=TRUE;

    ret = (pVal1->exist.m_oid == pVal2->exist.m_oid);
    if (ret && pVal1->exist.m_oid) {
    	ret = XOid_Equal((&(pVal1->m_oid)), (&(pVal2->m_oid)));
    }

    if (ret) {
        ret = (pVal1->exist.m_def == pVal2->exist.m_def);
        if (ret && pVal1->exist.m_def) {
        	ret = (pVal1->m_def == pVal2->m_def);
        }

        if (ret) {
            ret = (pVal1->exist.m_db == pVal2->exist.m_db);
            if (ret && pVal1->exist.m_db) {
            	ret = (pVal1->m_db == pVal2->m_db);
            }

            if (ret) {
                ret = (pVal1->exist.m_de == pVal2->exist.m_de);
                if (ret && pVal1->exist.m_de) {
                	ret = (pVal1->m_de == pVal2->m_de);
                }

                if (ret) {
                    ret = (pVal1->exist.m_txt == pVal2->exist.m_txt);
                    if (ret && pVal1->exist.m_txt) {
                    	ret = (strcmp(pVal1->m_txt, pVal2->m_txt) == 0);
                    }

                    if (ret) {
                        ret = (pVal1->m_en == pVal2->m_en);

                        if (ret) {
                            ret = (pVal1->exist.m_ch == pVal2->exist.m_ch);
                            if (ret && pVal1->exist.m_ch) {
                            	ret = XCh2_Equal((&(pVal1->m_ch)), (&(pVal2->m_ch)));
                            }

                            if (ret) {
                                ret = XSoFix_Equal((&(pVal1->m_fix)), (&(pVal2->m_fix)));

                                if (ret) {
                                    ret = XSoCh_Equal((&(pVal1->m_sch)), (&(pVal2->m_sch)));

                                    if (ret) {
                                        ret = (pVal1->m_uns == pVal2->m_uns);

                                        if (ret) {
                                            ret = (pVal1->m_neg == pVal2->m_neg);

                                            if (ret) {
                                                ret = (strcmp(pVal1->m_num, pVal2->m_num) == 0);

                                                if (ret) {
                                                    ret = (pVal1->exist.m_in == pVal2->exist.m_in);
                                                    if (ret && pVal1->exist.m_in) {
                                                    	ret = XMis_m_in_Equal((&(pVal1->m_in)), (&(pVal2->m_in)));
                                                    }

                                                    if (ret) {
                                                        ret = XMis_m_ino_Equal((&(pVal1->m_ino)), (&(pVal2->m_ino)));

                                                        if (ret) {
                                                            ret = XMis_m_inc_Equal((&(pVal1->m_inc)), (&(pVal2->m_inc)));

                                                            if (ret) {
                                                                ret = (Asn1Real_Equal(pVal1->m_rc,pVal2->m_rc));

                                                                if (ret) {
                                                                    ret = (pVal1->m_one == pVal2->m_one);

                                                                }

                                                            }

                                                        }

                                                    }

                                                }

                                            }

                                        }

                                    }

                                }

                            }

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag XMis_m_in_z_b_IsConstraintValid(const XMis_m_in_z_b* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 70UL);
    *pErrCode = ret ? 0 :  ERR_XMIS_M_IN_Z_B;

	return ret;
}

flag XMis_m_in_z_c_IsConstraintValid(const XMis_m_in_z_c* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = (((unsigned int)pVal->nCount) <= 5);
    *pErrCode = ret ? 0 :  ERR_XMIS_M_IN_Z_C;

	return ret;
}

flag XMis_m_in_IsConstraintValid(const XMis_m_in* pVal, int* pErrCode)
{
    flag ret = TRUE;
    if (pVal->exist.z_b) {
    	ret = XMis_m_in_z_b_IsConstraintValid((&(pVal->z_b)), pErrCode);
    }
    if (ret) {
        ret = XMis_m_in_z_c_IsConstraintValid((&(pVal->z_c)), pErrCode);
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag XMis_m_ino_elem_IsConstraintValid(const XMis_m_ino_elem* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 9UL);
    *pErrCode = ret ? 0 :  ERR_XMIS_M_INO_ELM;

	return ret;
}

flag XMis_m_ino_IsConstraintValid(const XMis_m_ino* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 3);
    *pErrCode = ret ? 0 :  ERR_XMIS_M_INO;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XMis_m_ino_elem_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag XMis_m_inc_IsConstraintValid(const XMis_m_inc* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((((*(pVal)) == xq1)) || (((*(pVal)) == xq2)));
    *pErrCode = ret ? 0 :  ERR_XMIS_M_INC;

	return ret;
}

flag XMis_IsConstraintValid(const XMis* pVal, int* pErrCode)
{
    flag ret = TRUE;
    if (pVal->exist.m_oid) {
    	ret = XOid_IsConstraintValid((&(pVal->m_oid)), pErrCode);
    }
    if (ret) {
        if (pVal->exist.m_def) {
        	ret = XU8_IsConstraintValid((&(pVal->m_def)), pErrCode);
        }
        if (ret) {
            if (pVal->exist.m_de) {
            	ret = XCol_IsConstraintValid((&(pVal->m_de)), pErrCode);
            }
            if (ret) {
                if (pVal->exist.m_txt) {
                	ret = XText_IsConstraintValid(pVal->m_txt, pErrCode);
                }
                if (ret) {
                    ret = XEnumL_IsConstraintValid((&(pVal->m_en)), pErrCode);
                    if (ret) {
                        if (pVal->exist.m_ch) {
                        	ret = XCh2_IsConstraintValid((&(pVal->m_ch)), pErrCode);
                        }
                        if (ret) {
                            ret = XSoFix_IsConstraintValid((&(pVal->m_fix)), pErrCode);
                            if (ret) {
                                ret = XSoCh_IsConstraintValid((&(pVal->m_sch)), pErrCode);
                                if (ret) {
                                    ret = XUns_IsConstraintValid((&(pVal->m_uns)), pErrCode);
                                    if (ret) {
                                        ret = XNeg_IsConstraintValid((&(pVal->m_neg)), pErrCode);
                                        if (ret) {
                                            ret = XNum_IsConstraintValid(pVal->m_num, pErrCode);
                                            if (ret) {
                                                if (pVal->exist.m_in) {
                                                	ret = XMis_m_in_IsConstraintValid((&(pVal->m_in)), pErrCode);
                                                }
                                                if (ret) {
                                                    ret = XMis_m_ino_IsConstraintValid((&(pVal->m_ino)), pErrCode);
                                                    if (ret) {
                                                        ret = XMis_m_inc_IsConstraintValid((&(pVal->m_inc)), pErrCode);
                                                        if (ret) {
                                                            ret = XRlC_IsConstraintValid((&(pVal->m_rc)), pErrCode);
                                                            if (ret) {
                                                                ret = XOne_IsConstraintValid((&(pVal->m_one)), pErrCode);
                                                            }   /*COVERAGE_IGNORE*/
                                                        }   /*COVERAGE_IGNORE*/
                                                    }   /*COVERAGE_IGNORE*/
                                                }   /*COVERAGE_IGNORE*/
                                            }   /*COVERAGE_IGNORE*/
                                        }   /*COVERAGE_IGNORE*/
                                    }   /*COVERAGE_IGNORE*/
                                }   /*COVERAGE_IGNORE*/
                            }   /*COVERAGE_IGNORE*/
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XMis_m_in_z_b_Initialize(XMis_m_in_z_b* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void XMis_m_in_z_c_Initialize(XMis_m_in_z_c* pVal)
{
	(void)pVal;


	memset(pVal->arr, 0x0, 5);
	pVal->nCount = 0;

}
void XMis_m_in_Initialize(XMis_m_in* pVal)
{
	(void)pVal;


	/*set z_a */
	pVal->z_a = FALSE;
	/*set z_b */
	pVal->exist.z_b = 1;
	XMis_m_in_z_b_Initialize((&(pVal->z_b)));
	/*set z_c */
	XMis_m_in_z_c_Initialize((&(pVal->z_c)));
}
void XMis_m_ino_elem_Initialize(XMis_m_ino_elem* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void XMis_m_ino_Initialize(XMis_m_ino* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 3) {
	    XMis_m_ino_elem_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void XMis_m_inc_Initialize(XMis_m_inc* pVal)
{
	(void)pVal;


	(*(pVal)) = xq1;
}
void XMis_Initialize(XMis* pVal)
{
	(void)pVal;


	/*set m_oid */
	pVal->exist.m_oid = 1;
	XOid_Initialize((&(pVal->m_oid)));
	/*set m_nul */
	XNul_Initialize((&(pVal->m_nul)));
	/*set m_def */
	pVal->exist.m_def = 1;
	pVal->m_def = 17UL;
	/*set m_db */
	pVal->exist.m_db = 1;
	pVal->m_db = TRUE;
	/*set m_de */
	pVal->exist.m_de = 1;
	pVal->m_de = xgreen;
	/*set m_txt */
	pVal->exist.m_txt = 1;
	XText_Initialize(pVal->m_txt);
	/*set m_en */
	XEnumL_Initialize((&(pVal->m_en)));
	/*set m_ch */
	pVal->exist.m_ch = 1;
	XCh2_Initialize((&(pVal->m_ch)));
	/*set m_fix */
	XSoFix_Initialize((&(pVal->m_fix)));
	/*set m_sch */
	XSoCh_Initialize((&(pVal->m_sch)));
	/*set m_uns */
	XUns_Initialize((&(pVal->m_uns)));
	/*set m_neg */
	XNeg_Initialize((&(pVal->m_neg)));
	/*set m_num */
	XNum_Initialize(pVal->m_num);
	/*set m_in */
	pVal->exist.m_in = 1;
	XMis_m_in_Initialize((&(pVal->m_in)));
	/*set m_ino */
	XMis_m_ino_Initialize((&(pVal->m_ino)));
	/*set m_inc */
	XMis_m_inc_Initialize((&(pVal->m_inc)));
	/*set m_rc */
	XRlC_Initialize((&(pVal->m_rc)));
	/*set m_one */
	XOne_Initialize((&(pVal->m_one)));
}

flag XMis_XER_Encode_aux(const XMis* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XMis_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS;
	    if (ret) {
	        /*Encode m_oid */
	        if (pVal->exist.m_oid) {
	        	ret = XOid_XER_Encode_aux((&(pVal->m_oid)), "m-oid", pByteStrm, pErrCode, FALSE);
	        }
	        if (ret) {
	            /*Encode m_nul */
	            ret = XNul_XER_Encode_aux((&(pVal->m_nul)), "m-nul", pByteStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode m_def */
	                if (pVal->exist.m_def) {
	                	ret = XU8_XER_Encode_aux((&(pVal->m_def)), "m-def", pByteStrm, pErrCode, FALSE);
	                }
	                if (ret) {
	                    /*Encode m_db */
	                    if (pVal->exist.m_db) {
	                    	ret = Xer_EncodeBoolean(pByteStrm, "m-db", pVal->m_db, pErrCode, 1);
	                    	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_DB;
	                    }
	                    if (ret) {
	                        /*Encode m_de */
	                        if (pVal->exist.m_de) {
	                        	ret = XCol_XER_Encode_aux((&(pVal->m_de)), "m-de", pByteStrm, pErrCode, FALSE);
	                        }
	                        if (ret) {
	                            /*Encode m_txt */
	                            if (pVal->exist.m_txt) {
	                            	ret = XText_XER_Encode_aux(pVal->m_txt, "m-txt", pByteStrm, pErrCode, FALSE);
	                            }
	                            if (ret) {
	                                /*Encode m_en */
	                                ret = XEnumL_XER_Encode_aux((&(pVal->m_en)), "m-en", pByteStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    /*Encode m_ch */
	                                    if (pVal->exist.m_ch) {
	                                    	ret = XCh2_XER_Encode_aux((&(pVal->m_ch)), "m-ch", pByteStrm, pErrCode, FALSE);
	                                    }
	                                    if (ret) {
	                                        /*Encode m_fix */
	                                        ret = XSoFix_XER_Encode_aux((&(pVal->m_fix)), "m-fix", pByteStrm, pErrCode, FALSE);
	                                        if (ret) {
	                                            /*Encode m_sch */
	                                            ret = XSoCh_XER_Encode_aux((&(pVal->m_sch)), "m-sch", pByteStrm, pErrCode, FALSE);
	                                            if (ret) {
	                                                /*Encode m_uns */
	                                                ret = XUns_XER_Encode_aux((&(pVal->m_uns)), "m-uns", pByteStrm, pErrCode, FALSE);
	                                                if (ret) {
	                                                    /*Encode m_neg */
	                                                    ret = XNeg_XER_Encode_aux((&(pVal->m_neg)), "m-neg", pByteStrm, pErrCode, FALSE);
	                                                    if (ret) {
	                                                        /*Encode m_num */
	                                                        ret = XNum_XER_Encode_aux(pVal->m_num, "m-num", pByteStrm, pErrCode, FALSE);
	                                                        if (ret) {
	                                                            /*Encode m_in */
	                                                            if (pVal->exist.m_in) {
	                                                            	ret = Xer_EncodeComplexElementStart(pByteStrm, "m-in", NULL, pErrCode, 1);
	                                                            	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_IN;
	                                                            	if (ret) {
	                                                            	    /*Encode z_a */
	                                                            	    ret = Xer_EncodeBoolean(pByteStrm, "z-a", pVal->m_in.z_a, pErrCode, 2);
	                                                            	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_IN_Z_A;
	                                                            	    if (ret) {
	                                                            	        /*Encode z_b */
	                                                            	        if (pVal->m_in.exist.z_b) {
	                                                            	        	ret = Xer_EncodePosInteger(pByteStrm, "z-b", pVal->m_in.z_b, pErrCode, 2);
	                                                            	        	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_IN_Z_B;
	                                                            	        }
	                                                            	        if (ret) {
	                                                            	            /*Encode z_c */
	                                                            	            ret = Xer_EncodeOctetString(pByteStrm, "z-c", pVal->m_in.z_c.arr, pVal->m_in.z_c.nCount, pErrCode, 2);
	                                                            	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_IN_Z_C;
	                                                            	            if (ret) {
	                                                            	                ret = Xer_EncodeComplexElementEnd(pByteStrm, "m-in", pErrCode, 1);
	                                                            	                *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_IN;
	                                                            	            }   /*COVERAGE_IGNORE*/
	                                                            	        }   /*COVERAGE_IGNORE*/
	                                                            	    }   /*COVERAGE_IGNORE*/
	                                                            	}   /*COVERAGE_IGNORE*/
	                                                            }
	                                                            if (ret) {
	                                                                /*Encode m_ino */
	                                                                /* SEQUENCE OF Encode*/
	                                                                ret = Xer_EncodeComplexElementStart(pByteStrm, "m-ino", NULL, pErrCode, 1);
	                                                                *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_INO;
	                                                                if (ret) {
	                                                                    for(i1=0;((i1 < pVal->m_ino.nCount) && ret);i1++)
	                                                                    {
	                                                                	    ret = Xer_EncodePosInteger(pByteStrm, "XMis-m-ino-elem", pVal->m_ino.arr[i1], pErrCode, 2);
	                                                                	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_INO_ELM;
	                                                                    }
	                                                                    if (ret) {
	                                                                        ret = Xer_EncodeComplexElementEnd(pByteStrm, "m-ino", pErrCode, 1);
	                                                                        *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_INO;
	                                                                    }
	                                                                }
	                                                                if (ret) {
	                                                                    /*Encode m_inc */
	                                                                    switch(pVal->m_inc)
	                                                                    {
	                                                                        case xq1:
	                                                                        	ret = Xer_EncodeEnumerated(pByteStrm, "m-inc", "xq1", pErrCode, 1);
	                                                                            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_INC;
	                                                                        	break;
	                                                                        case xq2:
	                                                                        	ret = Xer_EncodeEnumerated(pByteStrm, "m-inc", "xq2", pErrCode, 1);
	                                                                            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS_M_INC;
	                                                                        	break;
	                                                                        default:
	                                                                    	    *pErrCode = ERR_XER_ENCODE_XMIS_M_INC; /*COVERAGE_IGNORE*/
	                                                                    	    ret = FALSE;  /*COVERAGE_IGNORE*/
	                                                                    }
	                                                                    if (ret) {
	                                                                        /*Encode m_rc */
	                                                                        ret = XRlC_XER_Encode_aux((&(pVal->m_rc)), "m-rc", pByteStrm, pErrCode, FALSE);
	                                                                        if (ret) {
	                                                                            /*Encode m_one */
	                                                                            ret = XOne_XER_Encode_aux((&(pVal->m_one)), "m-one", pByteStrm, pErrCode, FALSE);
	                                                                            if (ret) {
	                                                                                ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	                                                                                *pErrCode = ret ? 0 : ERR_XER_ENCODE_XMIS;
	                                                                            }   /*COVERAGE_IGNORE*/
	                                                                        }   /*COVERAGE_IGNORE*/
	                                                                    }   /*COVERAGE_IGNORE*/
	                                                                }   /*COVERAGE_IGNORE*/
	                                                            }   /*COVERAGE_IGNORE*/
	                                                        }   /*COVERAGE_IGNORE*/
	                                                    }   /*COVERAGE_IGNORE*/
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    }


    return ret;
}

flag XMis_XER_Encode(const XMis* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XMis_XER_Encode_aux(pVal, "XMis", pByteStrm, pErrCode, bCheckConstraints);
}

flag XMis_XER_Decode_aux(XMis* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XMIS;
	if (ret) {
	    /*Decode m_oid */
	    pVal->exist.m_oid = 0;
	    if (Xer_NextStartElementIs(pByteStrm, "m-oid")) {
	    	pVal->exist.m_oid = 1;
	    	ret = XOid_XER_Decode_aux((&(pVal->m_oid)), "m-oid", pByteStrm, pErrCode);
	    }
	    if (ret) {
	        /*Decode m_nul */
	        ret = Xer_NextStartElementIs(pByteStrm, "m-nul");
	        if (ret) {
	        	ret = XNul_XER_Decode_aux((&(pVal->m_nul)), "m-nul", pByteStrm, pErrCode);
	        } else {
	        	*pErrCode = ERR_INVALID_XML_FILE;
	        }
	        if (ret) {
	            /*Decode m_def */
	            pVal->exist.m_def = 0;
	            if (Xer_NextStartElementIs(pByteStrm, "m-def")) {
	            	pVal->exist.m_def = 1;
	            	ret = XU8_XER_Decode_aux((&(pVal->m_def)), "m-def", pByteStrm, pErrCode);
	            } else {
	                pVal->m_def = 17UL;
	            }
	            if (ret) {
	                /*Decode m_db */
	                pVal->exist.m_db = 0;
	                if (Xer_NextStartElementIs(pByteStrm, "m-db")) {
	                	pVal->exist.m_db = 1;
	                	ret = Xer_DecodeBoolean(pByteStrm, "m-db", (&(pVal->m_db)), pErrCode);
	                	*pErrCode = ret ? 0 : ERR_XER_DECODE_XMIS_M_DB;
	                } else {
	                    pVal->m_db = TRUE;
	                }
	                if (ret) {
	                    /*Decode m_de */
	                    pVal->exist.m_de = 0;
	                    if (Xer_NextStartElementIs(pByteStrm, "m-de")) {
	                    	pVal->exist.m_de = 1;
	                    	ret = XCol_XER_Decode_aux((&(pVal->m_de)), "m-de", pByteStrm, pErrCode);
	                    } else {
	                        pVal->m_de = xgreen;
	                    }
	                    if (ret) {
	                        /*Decode m_txt */
	                        pVal->exist.m_txt = 0;
	                        if (Xer_NextStartElementIs(pByteStrm, "m-txt")) {
	                        	pVal->exist.m_txt = 1;
	                        	ret = XText_XER_Decode_aux(pVal->m_txt, "m-txt", pByteStrm, pErrCode);
	                        }
	                        if (ret) {
	                            /*Decode m_en */
	                            ret = Xer_NextStartElementIs(pByteStrm, "m-en");
	                            if (ret) {
	                            	ret = XEnumL_XER_Decode_aux((&(pVal->m_en)), "m-en", pByteStrm, pErrCode);
	                            } else {
	                            	*pErrCode = ERR_INVALID_XML_FILE;
	                            }
	                            if (ret) {
	                                /*Decode m_ch */
	                                pVal->exist.m_ch = 0;
	                                if (Xer_NextStartElementIs(pByteStrm, "m-ch")) {
	                                	pVal->exist.m_ch = 1;
	                                	ret = XCh2_XER_Decode_aux((&(pVal->m_ch)), "m-ch", pByteStrm, pErrCode);
	                                }
	                                if (ret) {
	                                    /*Decode m_fix */
	                                    ret = Xer_NextStartElementIs(pByteStrm, "m-fix");
	                                    if (ret) {
	                                    	ret = XSoFix_XER_Decode_aux((&(pVal->m_fix)), "m-fix", pByteStrm, pErrCode);
	                                    } else {
	                                    	*pErrCode = ERR_INVALID_XML_FILE;
	                                    }
	                                    if (ret) {
	                                        /*Decode m_sch */
	                                        ret = Xer_NextStartElementIs(pByteStrm, "m-sch");
	                                        if (ret) {
	                                        	ret = XSoCh_XER_Decode_aux((&(pVal->m_sch)), "m-sch", pByteStrm, pErrCode);
	                                        } else {
	                                        	*pErrCode = ERR_INVALID_XML_FILE;
	                                        }
	                                        if (ret) {
	                                            /*Decode m_uns */
	                                            ret = Xer_NextStartElementIs(pByteStrm, "m-uns");
	                                            if (ret) {
	                                            	ret = XUns_XER_Decode_aux((&(pVal->m_uns)), "m-uns", pByteStrm, pErrCode);
	                                            } else {
	                                            	*pErrCode = ERR_INVALID_XML_FILE;
	                                            }
	                                            if (ret) {
	                                                /*Decode m_neg */
	                                                ret = Xer_NextStartElementIs(pByteStrm, "m-neg");
	                                                if (ret) {
	                                                	ret = XNeg_XER_Decode_aux((&(pVal->m_neg)), "m-neg", pByteStrm, pErrCode);
	                                                } else {
	                                                	*pErrCode = ERR_INVALID_XML_FILE;
	                                                }
	                                                if (ret) {
	                                                    /*Decode m_num */
	                                                    ret = Xer_NextStartElementIs(pByteStrm, "m-num");
	                                                    if (ret) {
	                                                    	ret = XNum_XER_Decode_aux(pVal->m_num, "m-num", pByteStrm, pErrCode);
	                                                    } else {
	                                                    	*pErrCode = ERR_INVALID_XML_FILE;
	                                                    }
	                                                    if (ret) {
	                                                        /*Decode m_in */
	                                                        pVal->exist.m_in = 0;
	                                                        if (Xer_NextStartElementIs(pByteStrm, "m-in")) {
	                                                        	pVal->exist.m_in = 1;
	                                                        	ret = Xer_DecodeComplexElementStart(pByteStrm, "m-in", NULL, pErrCode);
	                                                        	*pErrCode = ret ? 0 : ERR_XER_DECODE_XMIS_M_IN;
	                                                        	if (ret) {
	                                                        	    /*Decode z_a */
	                                                        	    ret = Xer_NextStartElementIs(pByteStrm, "z-a");
	                                                        	    if (ret) {
	                                                        	    	ret = Xer_DecodeBoolean(pByteStrm, "z-a", (&(pVal->m_in.z_a)), pErrCode);
	                                                        	    	*pErrCode = ret ? 0 : ERR_XER_DECODE_XMIS_M_IN_Z_A;
	                                                        	    } else {
	                                                        	    	*pErrCode = ERR_INVALID_XML_FILE;
	                                                        	    }
	                                                        	    if (ret) {
	                                                        	        /*Decode z_b */
	                                                        	        pVal->m_in.exist.z_b = 0;
	                                                        	        if (Xer_NextStartElementIs(pByteStrm, "z-b")) {
	                                                        	        	pVal->m_in.exist.z_b = 1;
	                                                        	        	ret = Xer_DecodePosInteger(pByteStrm, "z-b", (&(pVal->m_in.z_b)), pErrCode);
	                                                        	        	if (ret) {
	                                                        	        	    ret = (pVal->m_in.z_b <= 70UL);
	                                                        	        	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XMIS_M_IN_Z_B;
	                                                        	        }
	                                                        	        if (ret) {
	                                                        	            /*Decode z_c */
	                                                        	            ret = Xer_NextStartElementIs(pByteStrm, "z-c");
	                                                        	            if (ret) {
	                                                        	            	ret = Xer_DecodeOctetString(pByteStrm, "z-c", pVal->m_in.z_c.arr, 5, &pVal->m_in.z_c.nCount, pErrCode);
	                                                        	            	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XMIS_M_IN_Z_C;
	                                                        	            } else {
	                                                        	            	*pErrCode = ERR_INVALID_XML_FILE;
	                                                        	            }
	                                                        	            if (ret) {
	                                                        	                ret = Xer_DecodeComplexElementEnd(pByteStrm, "m-in", pErrCode);
	                                                        	                *pErrCode = ret ? 0 : ERR_XER_DECODE_XMIS_M_IN;
	                                                        	            }   /*COVERAGE_IGNORE*/
	                                                        	        }   /*COVERAGE_IGNORE*/
	                                                        	    }   /*COVERAGE_IGNORE*/
	                                                        	}   /*COVERAGE_IGNORE*/
	                                                        }
	                                                        if (ret) {
	                                                            /*Decode m_ino */
	                                                            ret = Xer_NextStartElementIs(pByteStrm, "m-ino");
	                                                            if (ret) {
	                                                            	/* SEQUENCE OF Decode*/
	                                                            	ret = Xer_DecodeComplexElementStart(pByteStrm, "m-ino", NULL, pErrCode);
	                                                            	if (ret) {
	                                                            	    pVal->m_ino.nCount = 0;
	                                                            	    i1 = 0;
	                                                            	    while(ret && !Xer_NextEndElementIs(pByteStrm, "m-ino"))
	                                                            	    {
	                                                            	        if (i1 >= 3) {
	                                                            	            ret = FALSE;
	                                                            	            *pErrCode = ERR_XER_DECODE_XMIS_M_INO;
	                                                            	            break;
	                                                            	        }
	                                                            		    ret = Xer_DecodePosInteger(pByteStrm, "XMis-m-ino-elem", (&(pVal->m_ino.arr[i1])), pErrCode);
	                                                            		    if (ret) {
	                                                            		        ret = (pVal->m_ino.arr[i1] <= 9UL);
	                                                            		    }*pErrCode = ret  ? 0 : ERR_XER_DECODE_XMIS_M_INO_ELM;
	                                                            		    i1++;
	                                                            		    pVal->m_ino.nCount++;
	                                                            	    }
	                                                            	    if (ret) {
	                                                            	        ret = Xer_DecodeComplexElementEnd(pByteStrm, "m-ino", pErrCode);
	                                                            	    }
	                                                            	}
	                                                            	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XMIS_M_INO;

	                                                            } else {
	                                                            	*pErrCode = ERR_INVALID_XML_FILE;
	                                                            }
	                                                            if (ret) {
	                                                                /*Decode m_inc */
	                                                                ret = Xer_NextStartElementIs(pByteStrm, "m-inc");
	                                                                if (ret) {
	                                                                	{
	                                                                		char enmLabel[200];
	                                                                		ret = Xer_DecodeEnumerated(pByteStrm, "m-inc", enmLabel, pErrCode);
	                                                                	    if (ret) {
	                                                                	        if(strcmp(enmLabel,"xq1") == 0)
	                                                                	            pVal->m_inc = xq1;
	                                                                	        else if(strcmp(enmLabel,"xq2") == 0)
	                                                                	            pVal->m_inc = xq2;
	                                                                		    else {
	                                                                			    ret = FALSE; /*COVERAGE_IGNORE*/
	                                                                			    *pErrCode = ERR_XER_DECODE_XMIS_M_INC; /*COVERAGE_IGNORE*/
	                                                                		    }
	                                                                	    } else {
	                                                                	        *pErrCode = ERR_XER_DECODE_XMIS_M_INC; /*COVERAGE_IGNORE*/
	                                                                	    }
	                                                                		*pErrCode = ret  ? 0 : ERR_XER_DECODE_XMIS_M_INC;
	                                                                	}
	                                                                } else {
	                                                                	*pErrCode = ERR_INVALID_XML_FILE;
	                                                                }
	                                                                if (ret) {
	                                                                    /*Decode m_rc */
	                                                                    ret = Xer_NextStartElementIs(pByteStrm, "m-rc");
	                                                                    if (ret) {
	                                                                    	ret = XRlC_XER_Decode_aux((&(pVal->m_rc)), "m-rc", pByteStrm, pErrCode);
	                                                                    } else {
	                                                                    	*pErrCode = ERR_INVALID_XML_FILE;
	                                                                    }
	                                                                    if (ret) {
	                                                                        /*Decode m_one */
	                                                                        ret = Xer_NextStartElementIs(pByteStrm, "m-one");
	                                                                        if (ret) {
	                                                                        	ret = XOne_XER_Decode_aux((&(pVal->m_one)), "m-one", pByteStrm, pErrCode);
	                                                                        } else {
	                                                                        	*pErrCode = ERR_INVALID_XML_FILE;
	                                                                        }
	                                                                        if (ret) {
	                                                                            ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	                                                                            *pErrCode = ret ? 0 : ERR_XER_DECODE_XMIS;
	                                                                        }   /*COVERAGE_IGNORE*/
	                                                                    }   /*COVERAGE_IGNORE*/
	                                                                }   /*COVERAGE_IGNORE*/
	                                                            }   /*COVERAGE_IGNORE*/
	                                                        }   /*COVERAGE_IGNORE*/
	                                                    }   /*COVERAGE_IGNORE*/
	                                                }   /*COVERAGE_IGNORE*/
	                                            }   /*COVERAGE_IGNORE*/
	                                        }   /*COVERAGE_IGNORE*/
	                                    }   /*COVERAGE_IGNORE*/
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret;
}

flag XMis_XER_Decode(XMis* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XMis_XER_Decode_aux(pVal, "XMis", pByteStrm, pErrCode);
}


flag XSoIn_elem_a_Equal(const XSoIn_elem_a* pVal1, const XSoIn_elem_a* pVal2)
{
	return (*(pVal1)) == (*(pVal2));

}

flag XSoIn_elem_Equal(const XSoIn_elem* pVal1, const XSoIn_elem* pVal2)
{
	flag ret=TRUE;

    ret = XSoIn_elem_a_Equal((&(pVal1->a)), (&(pVal2->a)));

    if (ret) {
        ret = (pVal1->exist.b == pVal2->exist.b);
        if (ret && pVal1->exist.b) {
        	ret = (pVal1->b == pVal2->b);
        }

    }

	return ret;

}

flag XSoIn_Equal(const XSoIn* pVal1, const XSoIn* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XSoIn_elem_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XSoIn_elem_a_IsConstraintValid(const XSoIn_elem_a* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = ((*(pVal)) <= 9UL);
    *pErrCode = ret ? 0 :  ERR_XSOIN_ELM_A;

	return ret;
}

flag XSoIn_elem_IsConstraintValid(const XSoIn_elem* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = XSoIn_elem_a_IsConstraintValid((&(pVal->a)), pErrCode);

	return ret;
}

flag XSoIn_IsConstraintValid(const XSoIn* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 4);
    *pErrCode = ret ? 0 :  ERR_XSOIN;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XSoIn_elem_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XSoIn_elem_a_Initialize(XSoIn_elem_a* pVal)
{
	(void)pVal;


	(*(pVal)) = 0UL;
}
void XSoIn_elem_Initialize(XSoIn_elem* pVal)
{
	(void)pVal;


	/*set a */
	XSoIn_elem_a_Initialize((&(pVal->a)));
	/*set b */
	pVal->exist.b = 1;
	pVal->b = FALSE;
}
void XSoIn_Initialize(XSoIn* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 4) {
	    XSoIn_elem_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}

flag XSoIn_XER_Encode_aux(const XSoIn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XSoIn_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    /* SEQUENCE OF Encode*/
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOIN;
	    if (ret) {
	        for(i1=0;((i1 < pVal->nCount) && ret);i1++)
	        {
	    	    ret = Xer_EncodeComplexElementStart(pByteStrm, "XSoIn-elem", NULL, pErrCode, 1);
	    	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOIN_ELM;
	    	    if (ret) {
	    	        /*Encode a */
	    	        ret = Xer_EncodePosInteger(pByteStrm, "a", pVal->arr[i1].a, pErrCode, 2);
	    	        *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOIN_ELM_A;
	    	        if (ret) {
	    	            /*Encode b */
	    	            if (pVal->arr[i1].exist.b) {
	    	            	ret = Xer_EncodeBoolean(pByteStrm, "b", pVal->arr[i1].b, pErrCode, 2);
	    	            	*pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOIN_ELM_B;
	    	            }
	    	            if (ret) {
	    	                ret = Xer_EncodeComplexElementEnd(pByteStrm, "XSoIn-elem", pErrCode, 1);
	    	                *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOIN_ELM;
	    	            }   /*COVERAGE_IGNORE*/
	    	        }   /*COVERAGE_IGNORE*/
	    	    }   /*COVERAGE_IGNORE*/
	        }
	        if (ret) {
	            ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	            *pErrCode = ret ? 0 : ERR_XER_ENCODE_XSOIN;
	        }
	    }
    }


    return ret;
}

flag XSoIn_XER_Encode(const XSoIn* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XSoIn_XER_Encode_aux(pVal, "XSoIn", pByteStrm, pErrCode, bCheckConstraints);
}

flag XSoIn_XER_Decode_aux(XSoIn* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	/* SEQUENCE OF Decode*/
	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	if (ret) {
	    pVal->nCount = 0;
	    i1 = 0;
	    while(ret && !Xer_NextEndElementIs(pByteStrm, xmlTag))
	    {
	        if (i1 >= 4) {
	            ret = FALSE;
	            *pErrCode = ERR_XER_DECODE_XSOIN;
	            break;
	        }
		    ret = Xer_DecodeComplexElementStart(pByteStrm, "XSoIn-elem", NULL, pErrCode);
		    *pErrCode = ret ? 0 : ERR_XER_DECODE_XSOIN_ELM;
		    if (ret) {
		        /*Decode a */
		        ret = Xer_NextStartElementIs(pByteStrm, "a");
		        if (ret) {
		        	ret = Xer_DecodePosInteger(pByteStrm, "a", (&(pVal->arr[i1].a)), pErrCode);
		        	if (ret) {
		        	    ret = (pVal->arr[i1].a <= 9UL);
		        	}*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOIN_ELM_A;
		        } else {
		        	*pErrCode = ERR_INVALID_XML_FILE;
		        }
		        if (ret) {
		            /*Decode b */
		            pVal->arr[i1].exist.b = 0;
		            if (Xer_NextStartElementIs(pByteStrm, "b")) {
		            	pVal->arr[i1].exist.b = 1;
		            	ret = Xer_DecodeBoolean(pByteStrm, "b", (&(pVal->arr[i1].b)), pErrCode);
		            	*pErrCode = ret ? 0 : ERR_XER_DECODE_XSOIN_ELM_B;
		            }
		            if (ret) {
		                ret = Xer_DecodeComplexElementEnd(pByteStrm, "XSoIn-elem", pErrCode);
		                *pErrCode = ret ? 0 : ERR_XER_DECODE_XSOIN_ELM;
		            }   /*COVERAGE_IGNORE*/
		        }   /*COVERAGE_IGNORE*/
		    }   /*COVERAGE_IGNORE*/
		    i1++;
		    pVal->nCount++;
	    }
	    if (ret) {
	        ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	    }
	}
	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XSOIN;


	return ret;
}

flag XSoIn_XER_Decode(XSoIn* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XSoIn_XER_Decode_aux(pVal, "XSoIn", pByteStrm, pErrCode);
}


flag XTree_t_c_Equal(const XTree_t_c* pVal1, const XTree_t_c* pVal2)
{
	flag ret=TRUE;
    int i1;

    ret = (pVal1->nCount == pVal2->nCount);
    for(i1 = 0; ret && i1 < pVal1->nCount; i1++)
    {
    	ret = XMis_Equal((&(pVal1->arr[i1])), (&(pVal2->arr[i1])));
    }

	return ret;

}

flag XTree_Equal(const XTree* pVal1, const XTree* pVal2)
{
	flag ret=TRUE;

    ret = XMis_Equal((&(pVal1->t_a)), (&(pVal2->t_a)));

    if (ret) {
        ret = XSoSo_Equal((&(pVal1->t_b)), (&(pVal2->t_b)));

        if (ret) {
            ret = XTree_t_c_Equal((&(pVal1->t_c)), (&(pVal2->t_c)));

            if (ret) {
                ret = (pVal1->exist.t_d == pVal2->exist.t_d);
                if (ret && pVal1->exist.t_d) {
                	ret = XOctL_Equal((&(pVal1->t_d)), (&(pVal2->t_d)));
                }

                if (ret) {
                    ret = (pVal1->exist.t_e == pVal2->exist.t_e);
                    if (ret && pVal1->exist.t_e) {
                    	ret = XBitL_Equal((&(pVal1->t_e)), (&(pVal2->t_e)));
                    }

                    if (ret) {
                        ret = XSoOid_Equal((&(pVal1->t_f)), (&(pVal2->t_f)));

                        if (ret) {
                            ret = XSoIn_Equal((&(pVal1->t_g)), (&(pVal2->t_g)));

                        }

                    }

                }

            }

        }

    }

	return ret;

}

flag XTree_t_c_IsConstraintValid(const XTree_t_c* pVal, int* pErrCode)
{
    flag ret = TRUE;
    int i1;
    ret = (((unsigned int)pVal->nCount) <= 2);
    *pErrCode = ret ? 0 :  ERR_XTREE_T_C;
    if (ret) {
        for(i1 = 0; ret && i1 < pVal->nCount; i1++)
        {
        	ret = XMis_IsConstraintValid((&(pVal->arr[i1])), pErrCode);
        }
    }   /*COVERAGE_IGNORE*/

	return ret;
}

flag XTree_IsConstraintValid(const XTree* pVal, int* pErrCode)
{
    flag ret = TRUE;
    ret = XMis_IsConstraintValid((&(pVal->t_a)), pErrCode);
    if (ret) {
        ret = XSoSo_IsConstraintValid((&(pVal->t_b)), pErrCode);
        if (ret) {
            ret = XTree_t_c_IsConstraintValid((&(pVal->t_c)), pErrCode);
            if (ret) {
                if (pVal->exist.t_d) {
                	ret = XOctL_IsConstraintValid((&(pVal->t_d)), pErrCode);
                }
                if (ret) {
                    if (pVal->exist.t_e) {
                    	ret = XBitL_IsConstraintValid((&(pVal->t_e)), pErrCode);
                    }
                    if (ret) {
                        ret = XSoOid_IsConstraintValid((&(pVal->t_f)), pErrCode);
                        if (ret) {
                            ret = XSoIn_IsConstraintValid((&(pVal->t_g)), pErrCode);
                        }   /*COVERAGE_IGNORE*/
                    }   /*COVERAGE_IGNORE*/
                }   /*COVERAGE_IGNORE*/
            }   /*COVERAGE_IGNORE*/
        }   /*COVERAGE_IGNORE*/
    }   /*COVERAGE_IGNORE*/

	return ret;
}

void XTree_t_c_Initialize(XTree_t_c* pVal)
{
	(void)pVal;

    int i1;

	i1 = 0;
	while (i1< 2) {
	    XMis_Initialize((&(pVal->arr[i1])));
	    i1 = i1 + 1;
	}
	pVal->nCount = 0;
}
void XTree_Initialize(XTree* pVal)
{
	(void)pVal;


	/*set t_a */
	XMis_Initialize((&(pVal->t_a)));
	/*set t_b */
	XSoSo_Initialize((&(pVal->t_b)));
	/*set t_c */
	XTree_t_c_Initialize((&(pVal->t_c)));
	/*set t_d */
	pVal->exist.t_d = 1;
	XOctL_Initialize((&(pVal->t_d)));
	/*set t_e */
	pVal->exist.t_e = 1;
	XBitL_Initialize((&(pVal->t_e)));
	/*set t_f */
	XSoOid_Initialize((&(pVal->t_f)));
	/*set t_g */
	XSoIn_Initialize((&(pVal->t_g)));
}

flag XTree_XER_Encode_aux(const XTree* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    flag ret = TRUE;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;

	int i1;
	ret = bCheckConstraints ? XTree_IsConstraintValid(pVal, pErrCode) : TRUE ;
	if (ret) {
	    ret = Xer_EncodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode, 0);
	    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XTREE;
	    if (ret) {
	        /*Encode t_a */
	        ret = XMis_XER_Encode_aux((&(pVal->t_a)), "t-a", pByteStrm, pErrCode, FALSE);
	        if (ret) {
	            /*Encode t_b */
	            ret = XSoSo_XER_Encode_aux((&(pVal->t_b)), "t-b", pByteStrm, pErrCode, FALSE);
	            if (ret) {
	                /*Encode t_c */
	                /* SEQUENCE OF Encode*/
	                ret = Xer_EncodeComplexElementStart(pByteStrm, "t-c", NULL, pErrCode, 1);
	                *pErrCode = ret ? 0 : ERR_XER_ENCODE_XTREE_T_C;
	                if (ret) {
	                    for(i1=0;((i1 < pVal->t_c.nCount) && ret);i1++)
	                    {
	                	    ret = XMis_XER_Encode_aux((&(pVal->t_c.arr[i1])), "XMis", pByteStrm, pErrCode, FALSE);
	                    }
	                    if (ret) {
	                        ret = Xer_EncodeComplexElementEnd(pByteStrm, "t-c", pErrCode, 1);
	                        *pErrCode = ret ? 0 : ERR_XER_ENCODE_XTREE_T_C;
	                    }
	                }
	                if (ret) {
	                    /*Encode t_d */
	                    if (pVal->exist.t_d) {
	                    	ret = XOctL_XER_Encode_aux((&(pVal->t_d)), "t-d", pByteStrm, pErrCode, FALSE);
	                    }
	                    if (ret) {
	                        /*Encode t_e */
	                        if (pVal->exist.t_e) {
	                        	ret = XBitL_XER_Encode_aux((&(pVal->t_e)), "t-e", pByteStrm, pErrCode, FALSE);
	                        }
	                        if (ret) {
	                            /*Encode t_f */
	                            ret = XSoOid_XER_Encode_aux((&(pVal->t_f)), "t-f", pByteStrm, pErrCode, FALSE);
	                            if (ret) {
	                                /*Encode t_g */
	                                ret = XSoIn_XER_Encode_aux((&(pVal->t_g)), "t-g", pByteStrm, pErrCode, FALSE);
	                                if (ret) {
	                                    ret = Xer_EncodeComplexElementEnd(pByteStrm, xmlTag, pErrCode, 0);
	                                    *pErrCode = ret ? 0 : ERR_XER_ENCODE_XTREE;
	                                }   /*COVERAGE_IGNORE*/
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
    }


    return ret;
}

flag XTree_XER_Encode(const XTree* pVal, ByteStream* pByteStrm, int* pErrCode, flag bCheckConstraints)
{
    return XTree_XER_Encode_aux(pVal, "XTree", pByteStrm, pErrCode, bCheckConstraints);
}

flag XTree_XER_Decode_aux(XTree* pVal, const char* xmlTag, ByteStream* pByteStrm, int* pErrCode)
{
    flag ret = TRUE;
	int i1;
	(void)pVal;
	(void)xmlTag;
	(void)pByteStrm;
	(void)pErrCode;

	ret = Xer_DecodeComplexElementStart(pByteStrm, xmlTag, NULL, pErrCode);
	*pErrCode = ret ? 0 : ERR_XER_DECODE_XTREE;
	if (ret) {
	    /*Decode t_a */
	    ret = Xer_NextStartElementIs(pByteStrm, "t-a");
	    if (ret) {
	    	ret = XMis_XER_Decode_aux((&(pVal->t_a)), "t-a", pByteStrm, pErrCode);
	    } else {
	    	*pErrCode = ERR_INVALID_XML_FILE;
	    }
	    if (ret) {
	        /*Decode t_b */
	        ret = Xer_NextStartElementIs(pByteStrm, "t-b");
	        if (ret) {
	        	ret = XSoSo_XER_Decode_aux((&(pVal->t_b)), "t-b", pByteStrm, pErrCode);
	        } else {
	        	*pErrCode = ERR_INVALID_XML_FILE;
	        }
	        if (ret) {
	            /*Decode t_c */
	            ret = Xer_NextStartElementIs(pByteStrm, "t-c");
	            if (ret) {
	            	/* SEQUENCE OF Decode*/
	            	ret = Xer_DecodeComplexElementStart(pByteStrm, "t-c", NULL, pErrCode);
	            	if (ret) {
	            	    pVal->t_c.nCount = 0;
	            	    i1 = 0;
	            	    while(ret && !Xer_NextEndElementIs(pByteStrm, "t-c"))
	            	    {
	            	        if (i1 >= 2) {
	            	            ret = FALSE;
	            	            *pErrCode = ERR_XER_DECODE_XTREE_T_C;
	            	            break;
	            	        }
	            		    ret = XMis_XER_Decode_aux((&(pVal->t_c.arr[i1])), "XMis", pByteStrm, pErrCode);
	            		    i1++;
	            		    pVal->t_c.nCount++;
	            	    }
	            	    if (ret) {
	            	        ret = Xer_DecodeComplexElementEnd(pByteStrm, "t-c", pErrCode);
	            	    }
	            	}
	            	*pErrCode = ret  ? 0 : ERR_XER_DECODE_XTREE_T_C;

	            } else {
	            	*pErrCode = ERR_INVALID_XML_FILE;
	            }
	            if (ret) {
	                /*Decode t_d */
	                pVal->exist.t_d = 0;
	                if (Xer_NextStartElementIs(pByteStrm, "t-d")) {
	                	pVal->exist.t_d = 1;
	                	ret = XOctL_XER_Decode_aux((&(pVal->t_d)), "t-d", pByteStrm, pErrCode);
	                }
	                if (ret) {
	                    /*Decode t_e */
	                    pVal->exist.t_e = 0;
	                    if (Xer_NextStartElementIs(pByteStrm, "t-e")) {
	                    	pVal->exist.t_e = 1;
	                    	ret = XBitL_XER_Decode_aux((&(pVal->t_e)), "t-e", pByteStrm, pErrCode);
	                    }
	                    if (ret) {
	                        /*Decode t_f */
	                        ret = Xer_NextStartElementIs(pByteStrm, "t-f");
	                        if (ret) {
	                        	ret = XSoOid_XER_Decode_aux((&(pVal->t_f)), "t-f", pByteStrm, pErrCode);
	                        } else {
	                        	*pErrCode = ERR_INVALID_XML_FILE;
	                        }
	                        if (ret) {
	                            /*Decode t_g */
	                            ret = Xer_NextStartElementIs(pByteStrm, "t-g");
	                            if (ret) {
	                            	ret = XSoIn_XER_Decode_aux((&(pVal->t_g)), "t-g", pByteStrm, pErrCode);
	                            } else {
	                            	*pErrCode = ERR_INVALID_XML_FILE;
	                            }
	                            if (ret) {
	                                ret = Xer_DecodeComplexElementEnd(pByteStrm, xmlTag, pErrCode);
	                                *pErrCode = ret ? 0 : ERR_XER_DECODE_XTREE;
	                            }   /*COVERAGE_IGNORE*/
	                        }   /*COVERAGE_IGNORE*/
	                    }   /*COVERAGE_IGNORE*/
	                }   /*COVERAGE_IGNORE*/
	            }   /*COVERAGE_IGNORE*/
	        }   /*COVERAGE_IGNORE*/
	    }   /*COVERAGE_IGNORE*/
	}   /*COVERAGE_IGNORE*/

	return ret;
}

flag XTree_XER_Decode(XTree* pVal, ByteStream* pByteStrm, int* pErrCode)
{
    return XTree_XER_Decode_aux(pVal, "XTree", pByteStrm, pErrCode);
}


