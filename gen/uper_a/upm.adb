pragma Style_Checks (Off);
--  Code automatically generated by asn1scc tool

pragma Warnings (Off, """String"" is already use-visible inside package ""Standard""");

pragma Warnings (Off, "redundant with clause in body");

pragma Warnings (Off, "no entities of ""adaasn1rtl.encoding.uper"" are referenced");
pragma Warnings (Off, "use clause for package ""adaasn1rtl.encoding.uper"" has no effect");
pragma Warnings (Off, "unit ""adaasn1rtl.encoding.uper"" is not referenced");
with adaasn1rtl.encoding.uper;
pragma Warnings (On, "no entities of ""adaasn1rtl.encoding.uper"" are referenced");
pragma Warnings (On, "use clause for package ""adaasn1rtl.encoding.uper"" has no effect");
pragma Warnings (On, "unit ""adaasn1rtl.encoding.uper"" is not referenced");

pragma Warnings (On, "redundant with clause in body");

package body UPM with SPARK_Mode is


pragma Warnings (Off, "condition can only be False if invalid values present");
pragma Warnings (Off, "condition can only be True if invalid values present");


function U8_Equal (val1, val2 :  U8) return Boolean
is

begin
	return val1 = val2;

end U8_Equal;

function U8_IsConstraintValid(val : U8) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 255);
    ret.ErrorCode := (if ret.Success then 0 else ERR_U8);
    return ret;
end U8_IsConstraintValid;



procedure U8_Encode_aux(val : U8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := U8_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val, 0, 8);
    end if;

end U8_Encode_aux;

procedure U8_Encode(val : U8; Stream : out U8_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := U8_uPER_Stream'(Size_In_Bytes => U8_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    U8_Encode_aux(val, Stream, result);
end U8_Encode;

procedure U8_Decode_aux(val: out U8; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := U8_Init;

    result.ErrorCode := ERR_UPER_DECODE_U8;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val, 0, 255, 8, result.Success);
end U8_Decode_aux;
procedure U8_Decode(val:out U8; Stream : IN OUT U8_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    U8_Decode_aux(val, Stream, result);
    if result.success then
        result := U8_IsConstraintValid(val);
    end if;

end U8_Decode;



function CnF_a_Equal (val1, val2 :  CnF_a) return Boolean
is

begin
	return val1 = val2;

end CnF_a_Equal;

function CnF_Equal (val1, val2 :  CnF) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnF_a_Equal(val1.a, val2.a);

    if ret then
        ret := (val1.b = val2.b);

    end if;
	return ret;

end CnF_Equal;

function CnF_a_IsConstraintValid(val : CnF_a) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNF_A);
    return ret;
end CnF_a_IsConstraintValid;

function CnF_IsConstraintValid(val : CnF) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnF_a_IsConstraintValid(val.a);
    if ret.Success then
        ret := U8_IsConstraintValid(val.b);
    end if;
    return ret;
end CnF_IsConstraintValid;




procedure CnF_Encode_aux(val : CnF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnF_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        --Encode a
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.a, 0, 3);
        if result.Success then
            --Encode b
            U8_Encode_aux(val.b, bs, result);
        end if;
    end if;

end CnF_Encode_aux;

procedure CnF_Encode(val : CnF; Stream : out CnF_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := CnF_uPER_Stream'(Size_In_Bytes => CnF_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    CnF_Encode_aux(val, Stream, result);
end CnF_Encode;

procedure CnF_Decode_aux(val: out CnF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := CnF_Init;

    --Decode a
    result.ErrorCode := ERR_UPER_DECODE_CNF_A;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.a, 0, 7, 3, result.Success);
    if result.Success then
        --Decode b
        U8_Decode_aux(val.b, bs, result);
    end if;
end CnF_Decode_aux;
procedure CnF_Decode(val:out CnF; Stream : IN OUT CnF_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    CnF_Decode_aux(val, Stream, result);
    if result.success then
        result := CnF_IsConstraintValid(val);
    end if;

end CnF_Decode;



function CnX_p_Equal (val1, val2 :  CnX_p) return Boolean
is

begin
	return val1 = val2;

end CnX_p_Equal;

function CnX_t_Equal (val1, val2 :  CnX_t) return Boolean
is

begin
	return val1 = val2;

end CnX_t_Equal;

function CnX_Equal (val1, val2 :  CnX) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnX_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnF_Equal(val1.c, val2.c);

        if ret then
            ret := val1.Exist.d = val2.Exist.d;
            if ret and then val1.Exist.d = 1 then
                ret := CnF_Equal(val1.d, val2.d);
            end if;

            if ret then
                ret := CnX_t_Equal(val1.t, val2.t);

            end if;
        end if;
    end if;
	return ret;

end CnX_Equal;

function CnX_p_IsConstraintValid(val : CnX_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNX_P);
    return ret;
end CnX_p_IsConstraintValid;

function CnX_t_IsConstraintValid(val : CnX_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNX_T);
    return ret;
end CnX_t_IsConstraintValid;

function CnX_IsConstraintValid(val : CnX) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnX_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnF_IsConstraintValid(val.c);
        if ret.Success then
            if val.Exist.d = 1 then
                ret := CnF_IsConstraintValid(val.d);
            end if;
            if ret.Success then
                ret := CnX_t_IsConstraintValid(val.t);
            end if;
        end if;
    end if;
    return ret;
end CnX_IsConstraintValid;





procedure CnX_Encode_aux(val : CnX; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnX_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.d);
        if result.Success then
            --Encode p
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
            if result.Success then
                --Encode c
                --open new scope to declare some variables
                declare
                    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ENCODING);
                	data_length : Integer;
                begin
                	--encode value to a temporary bit stream
                	CnF_Encode_aux(val.c, tmpBs, result);
                	if result.success then
                		data_length := adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs);
                		adaasn1rtl.encoding.uper.BitStream_EncodeOctetString(bs, tmpBs.Buffer, data_length, 0, 2, 2);
                	end if;
                end;
                if result.Success then
                    --Encode d
                    if val.Exist.d = 1 then
                    	--open new scope to declare some variables
                    	declare
                    	    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ENCODING);
                    		data_length : Integer;
                    	begin
                    		--encode value to a temporary bit stream
                    		CnF_Encode_aux(val.d, tmpBs, result);
                    		if result.success then
                    			data_length := tmpBs.Current_Bit_Pos;
                    			adaasn1rtl.encoding.uper.BitStream_EncodeBitString(bs, tmpBs.Buffer, data_length, 0, 11, 11);
                    		end if;
                    	end;
                    end if;
                    if result.Success then
                        --Encode t
                        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
                    end if;
                end if;
            end if;
        end if;
    end if;

end CnX_Encode_aux;

procedure CnX_Encode(val : CnX; Stream : out CnX_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := CnX_uPER_Stream'(Size_In_Bytes => CnX_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    CnX_Encode_aux(val, Stream, result);
end CnX_Encode;

procedure CnX_Decode_aux(val: out CnX; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := CnX_Init;

    result.ErrorCode := ERR_UPER_DECODE_CNX;
    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.d, result.Success);
    if result.Success then
        --Decode p
        result.ErrorCode := ERR_UPER_DECODE_CNX_P;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
        if result.Success then
            --Decode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ENCODING);
            	data_length : Integer;
            begin
            	--decode to a temporary bitstream
            	adaasn1rtl.encoding.uper.BitStream_DecodeOctetString(bs, tmpBs.Buffer, data_length, 0, 2, 2, result.success);
            	if result.success then
            		CnF_Decode_aux(val.c, tmpBs, result);
            	end if;
            end;
            if result.Success then
                --Decode d
                if val.Exist.d = 1 then
                	--open new scope to declare some variables
                	declare
                	    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnF_REQUIRED_BYTES_FOR_ENCODING);
                		data_length : Integer;
                	begin
                		--decode to a temporary bitstream
                		adaasn1rtl.encoding.uper.BitStream_DecodeBitString(bs, tmpBs.Buffer, data_length, 0, 11, 11, result.success);
                		if result.success then
                			CnF_Decode_aux(val.d, tmpBs, result);
                		end if;
                	end;
                end if;
                if result.Success then
                    --Decode t
                    result.ErrorCode := ERR_UPER_DECODE_CNX_T;
                    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
                end if;
            end if;
        end if;
    end if;
end CnX_Decode_aux;
procedure CnX_Decode(val:out CnX; Stream : IN OUT CnX_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    CnX_Decode_aux(val, Stream, result);
    if result.success then
        result := CnX_IsConstraintValid(val);
    end if;

end CnX_Decode;



function I5_Equal (val1, val2 :  I5) return Boolean
is

begin
	return val1 = val2;

end I5_Equal;

function I5_IsConstraintValid(val : I5) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-7 <= val) AND (val <= 23));
    ret.ErrorCode := (if ret.Success then 0 else ERR_I5);
    return ret;
end I5_IsConstraintValid;



procedure I5_Encode_aux(val : I5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := I5_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, val, -7, 5);
    end if;

end I5_Encode_aux;

procedure I5_Encode(val : I5; Stream : out I5_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := I5_uPER_Stream'(Size_In_Bytes => I5_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    I5_Encode_aux(val, Stream, result);
end I5_Encode;

procedure I5_Decode_aux(val: out I5; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := I5_Init;

    result.ErrorCode := ERR_UPER_DECODE_I5;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, val, -7, 23, 5, result.Success);
end I5_Decode_aux;
procedure I5_Decode(val:out I5; Stream : IN OUT I5_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    I5_Decode_aux(val, Stream, result);
    if result.success then
        result := I5_IsConstraintValid(val);
    end if;

end I5_Decode;



function U1_Equal (val1, val2 :  U1) return Boolean
is

begin
	return val1 = val2;

end U1_Equal;

function U1_IsConstraintValid(val : U1) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((5 <= val) AND (val <= 5));
    ret.ErrorCode := (if ret.Success then 0 else ERR_U1);
    return ret;
end U1_IsConstraintValid;



procedure U1_Encode_aux(val : U1; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    pragma Unreferenced (bs);

begin
    result := U1_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        -- No need to encode value since it will always be 5 --
        null;
    end if;

end U1_Encode_aux;

procedure U1_Encode(val : U1; Stream : out U1_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := U1_uPER_Stream'(Size_In_Bytes => 1, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    U1_Encode_aux(val, Stream, result);
end U1_Encode;

pragma Warnings (Off, "unused initial value of ""val""");
procedure U1_Decode_aux(val: out U1; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    pragma Unreferenced (bs);
    pragma Unreferenced (val);

begin
    -- val := U1_Init;

    result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    val := 5;
end U1_Decode_aux;
pragma Warnings (On, "unused initial value of ""val""");

procedure U1_Decode(val:out U1; Stream : IN OUT U1_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    U1_Decode_aux(val, Stream, result);
    if result.success then
        result := U1_IsConstraintValid(val);
    end if;

end U1_Decode;



function I32_Equal (val1, val2 :  I32) return Boolean
is

begin
	return val1 = val2;

end I32_Equal;

function I32_IsConstraintValid(val : I32) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-2147483648 <= val) AND (val <= 2147483647));
    ret.ErrorCode := (if ret.Success then 0 else ERR_I32);
    return ret;
end I32_IsConstraintValid;



procedure I32_Encode_aux(val : I32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := I32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, val, -2147483648, 32);
    end if;

end I32_Encode_aux;

procedure I32_Encode(val : I32; Stream : out I32_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := I32_uPER_Stream'(Size_In_Bytes => I32_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    I32_Encode_aux(val, Stream, result);
end I32_Encode;

procedure I32_Decode_aux(val: out I32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := I32_Init;

    result.ErrorCode := ERR_UPER_DECODE_I32;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, val, -2147483648, 2147483647, 32, result.Success);
end I32_Decode_aux;
procedure I32_Decode(val:out I32; Stream : IN OUT I32_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    I32_Decode_aux(val, Stream, result);
    if result.success then
        result := I32_IsConstraintValid(val);
    end if;

end I32_Decode;



function U32_Equal (val1, val2 :  U32) return Boolean
is

begin
	return val1 = val2;

end U32_Equal;

function U32_IsConstraintValid(val : U32) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 4294967295);
    ret.ErrorCode := (if ret.Success then 0 else ERR_U32);
    return ret;
end U32_IsConstraintValid;



procedure U32_Encode_aux(val : U32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := U32_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val, 0, 32);
    end if;

end U32_Encode_aux;

procedure U32_Encode(val : U32; Stream : out U32_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := U32_uPER_Stream'(Size_In_Bytes => U32_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    U32_Encode_aux(val, Stream, result);
end U32_Encode;

procedure U32_Decode_aux(val: out U32; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := U32_Init;

    result.ErrorCode := ERR_UPER_DECODE_U32;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val, 0, 4294967295, 32, result.Success);
end U32_Decode_aux;
procedure U32_Decode(val:out U32; Stream : IN OUT U32_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    U32_Decode_aux(val, Stream, result);
    if result.success then
        result := U32_IsConstraintValid(val);
    end if;

end U32_Decode;



function I17_Equal (val1, val2 :  I17) return Boolean
is

begin
	return val1 = val2;

end I17_Equal;

function I17_IsConstraintValid(val : I17) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-70000 <= val) AND (val <= 60001));
    ret.ErrorCode := (if ret.Success then 0 else ERR_I17);
    return ret;
end I17_IsConstraintValid;



procedure I17_Encode_aux(val : I17; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := I17_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, val, -70000, 17);
    end if;

end I17_Encode_aux;

procedure I17_Encode(val : I17; Stream : out I17_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := I17_uPER_Stream'(Size_In_Bytes => I17_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    I17_Encode_aux(val, Stream, result);
end I17_Encode;

procedure I17_Decode_aux(val: out I17; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := I17_Init;

    result.ErrorCode := ERR_UPER_DECODE_I17;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, val, -70000, 60001, 17, result.Success);
end I17_Decode_aux;
procedure I17_Decode(val:out I17; Stream : IN OUT I17_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    I17_Decode_aux(val, Stream, result);
    if result.success then
        result := I17_IsConstraintValid(val);
    end if;

end I17_Decode;



function U24_Equal (val1, val2 :  U24) return Boolean
is

begin
	return val1 = val2;

end U24_Equal;

function U24_IsConstraintValid(val : U24) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val) AND (val <= 9000000));
    ret.ErrorCode := (if ret.Success then 0 else ERR_U24);
    return ret;
end U24_IsConstraintValid;



procedure U24_Encode_aux(val : U24; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := U24_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val, 1, 24);
    end if;

end U24_Encode_aux;

procedure U24_Encode(val : U24; Stream : out U24_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := U24_uPER_Stream'(Size_In_Bytes => U24_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    U24_Encode_aux(val, Stream, result);
end U24_Encode;

procedure U24_Decode_aux(val: out U24; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := U24_Init;

    result.ErrorCode := ERR_UPER_DECODE_U24;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val, 1, 9000000, 24, result.Success);
end U24_Decode_aux;
procedure U24_Decode(val:out U24; Stream : IN OUT U24_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    U24_Decode_aux(val, Stream, result);
    if result.success then
        result := U24_IsConstraintValid(val);
    end if;

end U24_Decode;



function Big_Equal (val1, val2 :  Big) return Boolean
is

begin
	return val1 = val2;

end Big_Equal;

function Big_IsConstraintValid(val : Big) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end Big_IsConstraintValid;



procedure Big_Encode_aux(val : Big; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Big_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_UnConstraintWholeNumber(bs, val);
    end if;

end Big_Encode_aux;

procedure Big_Encode(val : Big; Stream : out Big_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Big_uPER_Stream'(Size_In_Bytes => Big_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Big_Encode_aux(val, Stream, result);
end Big_Encode;

procedure Big_Decode_aux(val: out Big; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Big_Init;

    result.ErrorCode := ERR_UPER_DECODE_BIG;
    adaasn1rtl.encoding.uper.UPER_Dec_UnConstraintWholeNumber(bs, val, result.Success);
end Big_Decode_aux;
procedure Big_Decode(val:out Big; Stream : IN OUT Big_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Big_Decode_aux(val, Stream, result);
    if result.success then
        result := Big_IsConstraintValid(val);
    end if;

end Big_Decode;



function Pt_px_Equal (val1, val2 :  Pt_px) return Boolean
is

begin
	return val1 = val2;

end Pt_px_Equal;

function Pt_Equal (val1, val2 :  Pt) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := Pt_px_Equal(val1.px, val2.px);

    if ret then
        ret := val1.Exist.py = val2.Exist.py;
        if ret and then val1.Exist.py = 1 then
            ret := (val1.py = val2.py);
        end if;

    end if;
	return ret;

end Pt_Equal;

function Pt_px_IsConstraintValid(val : Pt_px) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-5 <= val) AND (val <= 5));
    ret.ErrorCode := (if ret.Success then 0 else ERR_PT_PX);
    return ret;
end Pt_px_IsConstraintValid;

function Pt_IsConstraintValid(val : Pt) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Pt_px_IsConstraintValid(val.px);
    if ret.Success then
        if val.Exist.py = 1 then
            ret := Big_IsConstraintValid(val.py);
        end if;
    end if;
    return ret;
end Pt_IsConstraintValid;




procedure Pt_Encode_aux(val : Pt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Pt_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.py);
        if result.Success then
            --Encode px
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, val.px, -5, 4);
            if result.Success then
                --Encode py
                if val.Exist.py = 1 then
                	Big_Encode_aux(val.py, bs, result);
                end if;
            end if;
        end if;
    end if;

end Pt_Encode_aux;

procedure Pt_Encode(val : Pt; Stream : out Pt_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Pt_uPER_Stream'(Size_In_Bytes => Pt_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Pt_Encode_aux(val, Stream, result);
end Pt_Encode;

procedure Pt_Decode_aux(val: out Pt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Pt_Init;

    result.ErrorCode := ERR_UPER_DECODE_PT;
    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.py, result.Success);
    if result.Success then
        --Decode px
        result.ErrorCode := ERR_UPER_DECODE_PT_PX;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, val.px, -5, 5, 4, result.Success);
        if result.Success then
            --Decode py
            if val.Exist.py = 1 then
            	Big_Decode_aux(val.py, bs, result);
            end if;
        end if;
    end if;
end Pt_Decode_aux;
procedure Pt_Decode(val:out Pt; Stream : IN OUT Pt_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Pt_Decode_aux(val, Stream, result);
    if result.success then
        result := Pt_IsConstraintValid(val);
    end if;

end Pt_Decode;



function SoPt_Equal (val1, val2 :  SoPt) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := Pt_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end SoPt_Equal;

function SoPt_IsConstraintValid(val : SoPt) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 5);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SOPT);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := Pt_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end SoPt_IsConstraintValid;



procedure SoPt_Encode_aux(val : SoPt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    result := SoPt_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 5;
        result.errorCode := ERR_UPER_ENCODE_SOPT;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 3);
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 77*(i1-1));
                Pt_Encode_aux(val.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end SoPt_Encode_aux;

procedure SoPt_Encode(val : SoPt; Stream : out SoPt_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := SoPt_uPER_Stream'(Size_In_Bytes => SoPt_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    SoPt_Encode_aux(val, Stream, result);
end SoPt_Encode;

procedure SoPt_Decode_aux(val: out SoPt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nStringLength:Integer;
begin
    -- val := SoPt_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 5, 3, result.Success);
    result.errorCode := ERR_UPER_DECODE_SOPT;
    i1 := 1;
    val.Length := nStringLength;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 77*(i1-1));
        Pt_Decode_aux(val.Data(i1), bs, result);
        i1 := i1 + 1;
    end loop;
end SoPt_Decode_aux;
procedure SoPt_Decode(val:out SoPt; Stream : IN OUT SoPt_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    SoPt_Decode_aux(val, Stream, result);
    if result.success then
        result := SoPt_IsConstraintValid(val);
    end if;

end SoPt_Decode;



function Semi_Equal (val1, val2 :  Semi) return Boolean
is

begin
	return val1 = val2;

end Semi_Equal;

function Semi_IsConstraintValid(val : Semi) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (10 <= val);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SEMI);
    return ret;
end Semi_IsConstraintValid;



procedure Semi_Encode_aux(val : Semi; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Semi_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_SemiConstraintPosWholeNumber(bs, val, 10);
    end if;

end Semi_Encode_aux;

procedure Semi_Encode(val : Semi; Stream : out Semi_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Semi_uPER_Stream'(Size_In_Bytes => Semi_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Semi_Encode_aux(val, Stream, result);
end Semi_Encode;

procedure Semi_Decode_aux(val: out Semi; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Semi_Init;

    result.ErrorCode := ERR_UPER_DECODE_SEMI;
    adaasn1rtl.encoding.uper.UPER_Dec_SemiConstraintPosWholeNumber(bs, val, 10, result.Success);
end Semi_Decode_aux;
procedure Semi_Decode(val:out Semi; Stream : IN OUT Semi_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Semi_Decode_aux(val, Stream, result);
    if result.success then
        result := Semi_IsConstraintValid(val);
    end if;

end Semi_Decode;



function SemiN_Equal (val1, val2 :  SemiN) return Boolean
is

begin
	return val1 = val2;

end SemiN_Equal;

function SemiN_IsConstraintValid(val : SemiN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (-300 <= val);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SEMIN);
    return ret;
end SemiN_IsConstraintValid;



procedure SemiN_Encode_aux(val : SemiN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := SemiN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_SemiConstraintWholeNumber(bs, val, -300);
    end if;

end SemiN_Encode_aux;

procedure SemiN_Encode(val : SemiN; Stream : out SemiN_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := SemiN_uPER_Stream'(Size_In_Bytes => SemiN_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    SemiN_Encode_aux(val, Stream, result);
end SemiN_Encode;

procedure SemiN_Decode_aux(val: out SemiN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := SemiN_Init;

    result.ErrorCode := ERR_UPER_DECODE_SEMIN;
    adaasn1rtl.encoding.uper.UPER_Dec_SemiConstraintWholeNumber(bs, val, -300, result.Success);
end SemiN_Decode_aux;
procedure SemiN_Decode(val:out SemiN; Stream : IN OUT SemiN_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    SemiN_Decode_aux(val, Stream, result);
    if result.success then
        result := SemiN_IsConstraintValid(val);
    end if;

end SemiN_Decode;



function UpTo_Equal (val1, val2 :  UpTo) return Boolean
is

begin
	return val1 = val2;

end UpTo_Equal;

function UpTo_IsConstraintValid(val : UpTo) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 100);
    ret.ErrorCode := (if ret.Success then 0 else ERR_UPTO);
    return ret;
end UpTo_IsConstraintValid;



procedure UpTo_Encode_aux(val : UpTo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := UpTo_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_UnConstraintWholeNumber(bs, val);
    end if;

end UpTo_Encode_aux;

procedure UpTo_Encode(val : UpTo; Stream : out UpTo_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := UpTo_uPER_Stream'(Size_In_Bytes => UpTo_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    UpTo_Encode_aux(val, Stream, result);
end UpTo_Encode;

procedure UpTo_Decode_aux(val: out UpTo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := UpTo_Init;

    result.ErrorCode := ERR_UPER_DECODE_UPTO;
    adaasn1rtl.encoding.uper.UPER_Dec_UnConstraintWholeNumberMax(bs, val, 100, result.Success);
    --result.Success := result.Success and then ();
end UpTo_Decode_aux;
procedure UpTo_Decode(val:out UpTo; Stream : IN OUT UpTo_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    UpTo_Decode_aux(val, Stream, result);
    if result.success then
        result := UpTo_IsConstraintValid(val);
    end if;

end UpTo_Decode;



function Flg_Equal (val1, val2 :  Flg) return Boolean
is

begin
	return val1 = val2;

end Flg_Equal;

function Flg_IsConstraintValid(val : Flg) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end Flg_IsConstraintValid;



procedure Flg_Encode_aux(val : Flg; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Flg_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val);
    end if;

end Flg_Encode_aux;

procedure Flg_Encode(val : Flg; Stream : out Flg_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Flg_uPER_Stream'(Size_In_Bytes => Flg_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Flg_Encode_aux(val, Stream, result);
end Flg_Encode;

procedure Flg_Decode_aux(val: out Flg; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Flg_Init;

    result.ErrorCode := ERR_UPER_DECODE_FLG;
    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val, result.Success);
end Flg_Decode_aux;
procedure Flg_Decode(val:out Flg; Stream : IN OUT Flg_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Flg_Decode_aux(val, Stream, result);
    if result.success then
        result := Flg_IsConstraintValid(val);
    end if;

end Flg_Decode;



function CnQ_a_Equal (val1, val2 :  CnQ_a) return Boolean
is

begin
	return val1 = val2;

end CnQ_a_Equal;

function CnQ_Equal (val1, val2 :  CnQ) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnQ_a_Equal(val1.a, val2.a);

    if ret then
        ret := (val1.b = val2.b);

        if ret then
            ret := val1.Exist.c = val2.Exist.c;
            if ret and then val1.Exist.c = 1 then
                ret := (val1.c = val2.c);
            end if;

        end if;
    end if;
	return ret;

end CnQ_Equal;

function CnQ_a_IsConstraintValid(val : CnQ_a) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNQ_A);
    return ret;
end CnQ_a_IsConstraintValid;

function CnQ_IsConstraintValid(val : CnQ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnQ_a_IsConstraintValid(val.a);
    if ret.Success then
        ret := Flg_IsConstraintValid(val.b);
        if ret.Success then
            if val.Exist.c = 1 then
                ret := U32_IsConstraintValid(val.c);
            end if;
        end if;
    end if;
    return ret;
end CnQ_IsConstraintValid;




procedure CnQ_Encode_aux(val : CnQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnQ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.c);
        if result.Success then
            --Encode a
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.a, 0, 3);
            if result.Success then
                --Encode b
                Flg_Encode_aux(val.b, bs, result);
                if result.Success then
                    --Encode c
                    if val.Exist.c = 1 then
                    	U32_Encode_aux(val.c, bs, result);
                    end if;
                end if;
            end if;
        end if;
    end if;

end CnQ_Encode_aux;

procedure CnQ_Encode(val : CnQ; Stream : out CnQ_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := CnQ_uPER_Stream'(Size_In_Bytes => CnQ_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    CnQ_Encode_aux(val, Stream, result);
end CnQ_Encode;

procedure CnQ_Decode_aux(val: out CnQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := CnQ_Init;

    result.ErrorCode := ERR_UPER_DECODE_CNQ;
    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.c, result.Success);
    if result.Success then
        --Decode a
        result.ErrorCode := ERR_UPER_DECODE_CNQ_A;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.a, 0, 7, 3, result.Success);
        if result.Success then
            --Decode b
            Flg_Decode_aux(val.b, bs, result);
            if result.Success then
                --Decode c
                if val.Exist.c = 1 then
                	U32_Decode_aux(val.c, bs, result);
                end if;
            end if;
        end if;
    end if;
end CnQ_Decode_aux;
procedure CnQ_Decode(val:out CnQ; Stream : IN OUT CnQ_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    CnQ_Decode_aux(val, Stream, result);
    if result.success then
        result := CnQ_IsConstraintValid(val);
    end if;

end CnQ_Decode;



function CnO_p_Equal (val1, val2 :  CnO_p) return Boolean
is

begin
	return val1 = val2;

end CnO_p_Equal;

function CnO_t_Equal (val1, val2 :  CnO_t) return Boolean
is

begin
	return val1 = val2;

end CnO_t_Equal;

function CnO_Equal (val1, val2 :  CnO) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnO_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnQ_Equal(val1.c, val2.c);

        if ret then
            ret := CnO_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end CnO_Equal;

function CnO_p_IsConstraintValid(val : CnO_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNO_P);
    return ret;
end CnO_p_IsConstraintValid;

function CnO_t_IsConstraintValid(val : CnO_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNO_T);
    return ret;
end CnO_t_IsConstraintValid;

function CnO_IsConstraintValid(val : CnO) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnO_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnQ_IsConstraintValid(val.c);
        if ret.Success then
            ret := CnO_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end CnO_IsConstraintValid;





procedure CnO_Encode_aux(val : CnO; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnO_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        --Encode p
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
        if result.Success then
            --Encode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ENCODING);
            	data_length : Integer;
            begin
            	--encode value to a temporary bit stream
            	CnQ_Encode_aux(val.c, tmpBs, result);
            	if result.success then
            		data_length := adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs);
            		adaasn1rtl.encoding.uper.BitStream_EncodeOctetString(bs, tmpBs.Buffer, data_length, 3, 1, 5);
            	end if;
            end;
            if result.Success then
                --Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;

end CnO_Encode_aux;

procedure CnO_Encode(val : CnO; Stream : out CnO_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := CnO_uPER_Stream'(Size_In_Bytes => CnO_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    CnO_Encode_aux(val, Stream, result);
end CnO_Encode;

procedure CnO_Decode_aux(val: out CnO; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := CnO_Init;

    --Decode p
    result.ErrorCode := ERR_UPER_DECODE_CNO_P;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
    if result.Success then
        --Decode c
        --open new scope to declare some variables
        declare
            tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ENCODING);
        	data_length : Integer;
        begin
        	--decode to a temporary bitstream
        	adaasn1rtl.encoding.uper.BitStream_DecodeOctetString(bs, tmpBs.Buffer, data_length, 3, 1, 5, result.success);
        	if result.success then
        		CnQ_Decode_aux(val.c, tmpBs, result);
        	end if;
        end;
        if result.Success then
            --Decode t
            result.ErrorCode := ERR_UPER_DECODE_CNO_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end CnO_Decode_aux;
procedure CnO_Decode(val:out CnO; Stream : IN OUT CnO_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    CnO_Decode_aux(val, Stream, result);
    if result.success then
        result := CnO_IsConstraintValid(val);
    end if;

end CnO_Decode;



function CnB_p_Equal (val1, val2 :  CnB_p) return Boolean
is

begin
	return val1 = val2;

end CnB_p_Equal;

function CnB_t_Equal (val1, val2 :  CnB_t) return Boolean
is

begin
	return val1 = val2;

end CnB_t_Equal;

function CnB_Equal (val1, val2 :  CnB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnB_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnQ_Equal(val1.c, val2.c);

        if ret then
            ret := CnB_t_Equal(val1.t, val2.t);

        end if;
    end if;
	return ret;

end CnB_Equal;

function CnB_p_IsConstraintValid(val : CnB_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNB_P);
    return ret;
end CnB_p_IsConstraintValid;

function CnB_t_IsConstraintValid(val : CnB_t) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 31);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNB_T);
    return ret;
end CnB_t_IsConstraintValid;

function CnB_IsConstraintValid(val : CnB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnB_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnQ_IsConstraintValid(val.c);
        if ret.Success then
            ret := CnB_t_IsConstraintValid(val.t);
        end if;
    end if;
    return ret;
end CnB_IsConstraintValid;





procedure CnB_Encode_aux(val : CnB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnB_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        --Encode p
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
        if result.Success then
            --Encode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ENCODING);
            	data_length : Integer;
            begin
            	--encode value to a temporary bit stream
            	CnQ_Encode_aux(val.c, tmpBs, result);
            	if result.success then
            		data_length := tmpBs.Current_Bit_Pos;
            		adaasn1rtl.encoding.uper.BitStream_EncodeBitString(bs, tmpBs.Buffer, data_length, 6, 5, 37);
            	end if;
            end;
            if result.Success then
                --Encode t
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.t, 0, 5);
            end if;
        end if;
    end if;

end CnB_Encode_aux;

procedure CnB_Encode(val : CnB; Stream : out CnB_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := CnB_uPER_Stream'(Size_In_Bytes => CnB_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    CnB_Encode_aux(val, Stream, result);
end CnB_Encode;

procedure CnB_Decode_aux(val: out CnB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := CnB_Init;

    --Decode p
    result.ErrorCode := ERR_UPER_DECODE_CNB_P;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
    if result.Success then
        --Decode c
        --open new scope to declare some variables
        declare
            tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnQ_REQUIRED_BYTES_FOR_ENCODING);
        	data_length : Integer;
        begin
        	--decode to a temporary bitstream
        	adaasn1rtl.encoding.uper.BitStream_DecodeBitString(bs, tmpBs.Buffer, data_length, 6, 5, 37, result.success);
        	if result.success then
        		CnQ_Decode_aux(val.c, tmpBs, result);
        	end if;
        end;
        if result.Success then
            --Decode t
            result.ErrorCode := ERR_UPER_DECODE_CNB_T;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.t, 0, 31, 5, result.Success);
        end if;
    end if;
end CnB_Decode_aux;
procedure CnB_Decode(val:out CnB; Stream : IN OUT CnB_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    CnB_Decode_aux(val, Stream, result);
    if result.success then
        result := CnB_IsConstraintValid(val);
    end if;

end CnB_Decode;



function CnN_p_Equal (val1, val2 :  CnN_p) return Boolean
is

begin
	return val1 = val2;

end CnN_p_Equal;

function CnN_d_Equal (val1, val2 :  CnN_d) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := CnB_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end CnN_d_Equal;

function CnN_Equal (val1, val2 :  CnN) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnN_p_Equal(val1.p, val2.p);

    if ret then
        ret := CnO_Equal(val1.c, val2.c);

        if ret then
            ret := CnN_d_Equal(val1.d, val2.d);

        end if;
    end if;
	return ret;

end CnN_Equal;

function CnN_p_IsConstraintValid(val : CnN_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNN_P);
    return ret;
end CnN_p_IsConstraintValid;

function CnN_d_IsConstraintValid(val : CnN_d) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNN_D);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := CnB_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end CnN_d_IsConstraintValid;

function CnN_IsConstraintValid(val : CnN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnN_p_IsConstraintValid(val.p);
    if ret.Success then
        ret := CnO_IsConstraintValid(val.c);
        if ret.Success then
            ret := CnN_d_IsConstraintValid(val.d);
        end if;
    end if;
    return ret;
end CnN_IsConstraintValid;





procedure CnN_Encode_aux(val : CnN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    result := CnN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        --Encode p
        adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
        if result.Success then
            --Encode c
            --open new scope to declare some variables
            declare
                tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnO_REQUIRED_BYTES_FOR_ENCODING);
            	data_length : Integer;
            begin
            	--encode value to a temporary bit stream
            	CnO_Encode_aux(val.c, tmpBs, result);
            	if result.success then
            		data_length := adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs);
            		adaasn1rtl.encoding.uper.BitStream_EncodeOctetString(bs, tmpBs.Buffer, data_length, 3, 3, 7);
            	end if;
            end;
            if result.Success then
                --Encode d
                result.Success := val.d.Length >= 0 AND val.d.Length <= 3;
                result.errorCode := ERR_UPER_ENCODE_CNN_D;
                i1 := 1;
                if result.Success then
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.d.Length), 0, 2);
                    while i1<= val.d.Length loop
                        pragma Loop_Invariant (i1 >=1 and i1<=val.d.Length);
                        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                        pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 51*(i1-1));
                        CnB_Encode_aux(val.d.Data(i1), bs, result);
                        i1 := i1 + 1;
                    end loop;
                end if;
            end if;
        end if;
    end if;

end CnN_Encode_aux;

procedure CnN_Encode(val : CnN; Stream : out CnN_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := CnN_uPER_Stream'(Size_In_Bytes => CnN_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    CnN_Encode_aux(val, Stream, result);
end CnN_Encode;

procedure CnN_Decode_aux(val: out CnN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nStringLength:Integer;
begin
    -- val := CnN_Init;

    --Decode p
    result.ErrorCode := ERR_UPER_DECODE_CNN_P;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
    if result.Success then
        --Decode c
        --open new scope to declare some variables
        declare
            tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(CnO_REQUIRED_BYTES_FOR_ENCODING);
        	data_length : Integer;
        begin
        	--decode to a temporary bitstream
        	adaasn1rtl.encoding.uper.BitStream_DecodeOctetString(bs, tmpBs.Buffer, data_length, 3, 3, 7, result.success);
        	if result.success then
        		CnO_Decode_aux(val.c, tmpBs, result);
        	end if;
        end;
        if result.Success then
            --Decode d
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 3, 2, result.Success);
            result.errorCode := ERR_UPER_DECODE_CNN_D;
            i1 := 1;
            val.d.Length := nStringLength;
            while i1<= val.d.Length AND result.Success loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.d.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 51*(i1-1));
                CnB_Decode_aux(val.d.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;
end CnN_Decode_aux;
procedure CnN_Decode(val:out CnN; Stream : IN OUT CnN_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    CnN_Decode_aux(val, Stream, result);
    if result.success then
        result := CnN_IsConstraintValid(val);
    end if;

end CnN_Decode;



function Rl_Equal (val1, val2 :  Rl) return Boolean
is

begin
	return adaasn1rtl.Asn1Real_Equal(val1, val2);

end Rl_Equal;

function Rl_IsConstraintValid(val : Rl) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end Rl_IsConstraintValid;



procedure Rl_Encode_aux(val : Rl; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Rl_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_Real(bs, val);
    end if;

end Rl_Encode_aux;

procedure Rl_Encode(val : Rl; Stream : out Rl_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Rl_uPER_Stream'(Size_In_Bytes => Rl_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Rl_Encode_aux(val, Stream, result);
end Rl_Encode;

procedure Rl_Decode_aux(val: out Rl; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Rl_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_Real(bs, val, result);
end Rl_Decode_aux;
procedure Rl_Decode(val:out Rl; Stream : IN OUT Rl_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Rl_Decode_aux(val, Stream, result);
    if result.success then
        result := Rl_IsConstraintValid(val);
    end if;

end Rl_Decode;



function RlC_Equal (val1, val2 :  RlC) return Boolean
is

begin
	return adaasn1rtl.Asn1Real_Equal(val1, val2);

end RlC_Equal;

function RlC_IsConstraintValid(val : RlC) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((-1.0000000000000000000E+001 <= val) AND (val <= 1.0500000000000000000E+001));
    ret.ErrorCode := (if ret.Success then 0 else ERR_RLC);
    return ret;
end RlC_IsConstraintValid;



procedure RlC_Encode_aux(val : RlC; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := RlC_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.UPER_Enc_Real(bs, val);
    end if;

end RlC_Encode_aux;

procedure RlC_Encode(val : RlC; Stream : out RlC_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := RlC_uPER_Stream'(Size_In_Bytes => RlC_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    RlC_Encode_aux(val, Stream, result);
end RlC_Encode;

procedure RlC_Decode_aux(val: out RlC; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := RlC_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_Real(bs, val, result);
end RlC_Decode_aux;
procedure RlC_Decode(val:out RlC; Stream : IN OUT RlC_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    RlC_Decode_aux(val, Stream, result);
    if result.success then
        result := RlC_IsConstraintValid(val);
    end if;

end RlC_Decode;



function Col_Equal (val1, val2 :  Col) return Boolean
is

begin
	return val1 = val2;

end Col_Equal;

function Col_IsConstraintValid(val : Col) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((val = red)) OR ((val = green)))) OR ((val = blue)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_COL);
    return ret;
end Col_IsConstraintValid;



procedure Col_Encode_aux(val : Col; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Col_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        declare
            intVal:Asn1Int;
        begin
            case val is
                when red    => intVal := 0;
                when green    => intVal := 1;
                when blue    => intVal := 2;
            end case;
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, intVal, 0, 2);
        end;
    end if;

end Col_Encode_aux;

procedure Col_Encode(val : Col; Stream : out Col_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Col_uPER_Stream'(Size_In_Bytes => Col_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Col_Encode_aux(val, Stream, result);
end Col_Encode;

procedure Col_Decode_aux(val: out Col; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Col_Init;

    declare
        intVal:Asn1Int;
    begin
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, intVal, 0, 2, 2, result.Success);
        if result.Success then
            case Col_index_range(intVal) is
                when 0 => val := red;
                when 1 => val := green;
                when 2 => val := blue;
            end case;
            result.ErrorCode := 0;
        else
            val := red;					-- COVERAGE_IGNORE
            result.ErrorCode := ERR_UPER_DECODE_COL;				-- COVERAGE_IGNORE
        end if;
    end;
end Col_Decode_aux;
procedure Col_Decode(val:out Col; Stream : IN OUT Col_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Col_Decode_aux(val, Stream, result);
    if result.success then
        result := Col_IsConstraintValid(val);
    end if;

end Col_Decode;



function Wide_Equal (val1, val2 :  Wide) return Boolean
is

begin
	return val1 = val2;

end Wide_Equal;

function Wide_IsConstraintValid(val : Wide) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((((((((((((((((((((((((((((((((((((val = w0)) OR ((val = w1)))) OR ((val = w2)))) OR ((val = w3)))) OR ((val = w4)))) OR ((val = w5)))) OR ((val = w6)))) OR ((val = w7)))) OR ((val = w8)))) OR ((val = w9)))) OR ((val = w10)))) OR ((val = w11)))) OR ((val = w12)))) OR ((val = w13)))) OR ((val = w14)))) OR ((val = w15)))) OR ((val = w16)))) OR ((val = w17)))) OR ((val = w18)))) OR ((val = w19)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_WIDE);
    return ret;
end Wide_IsConstraintValid;



procedure Wide_Encode_aux(val : Wide; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Wide_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        declare
            intVal:Asn1Int;
        begin
            case val is
                when w0    => intVal := 0;
                when w1    => intVal := 1;
                when w2    => intVal := 2;
                when w3    => intVal := 3;
                when w4    => intVal := 4;
                when w5    => intVal := 5;
                when w6    => intVal := 6;
                when w7    => intVal := 7;
                when w8    => intVal := 8;
                when w9    => intVal := 9;
                when w10    => intVal := 10;
                when w11    => intVal := 11;
                when w12    => intVal := 12;
                when w13    => intVal := 13;
                when w14    => intVal := 14;
                when w15    => intVal := 15;
                when w16    => intVal := 16;
                when w17    => intVal := 17;
                when w18    => intVal := 18;
                when w19    => intVal := 19;
            end case;
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, intVal, 0, 5);
        end;
    end if;

end Wide_Encode_aux;

procedure Wide_Encode(val : Wide; Stream : out Wide_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Wide_uPER_Stream'(Size_In_Bytes => Wide_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Wide_Encode_aux(val, Stream, result);
end Wide_Encode;

procedure Wide_Decode_aux(val: out Wide; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Wide_Init;

    declare
        intVal:Asn1Int;
    begin
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, intVal, 0, 19, 5, result.Success);
        if result.Success then
            case Wide_index_range(intVal) is
                when 0 => val := w0;
                when 1 => val := w1;
                when 2 => val := w2;
                when 3 => val := w3;
                when 4 => val := w4;
                when 5 => val := w5;
                when 6 => val := w6;
                when 7 => val := w7;
                when 8 => val := w8;
                when 9 => val := w9;
                when 10 => val := w10;
                when 11 => val := w11;
                when 12 => val := w12;
                when 13 => val := w13;
                when 14 => val := w14;
                when 15 => val := w15;
                when 16 => val := w16;
                when 17 => val := w17;
                when 18 => val := w18;
                when 19 => val := w19;
            end case;
            result.ErrorCode := 0;
        else
            val := w0;					-- COVERAGE_IGNORE
            result.ErrorCode := ERR_UPER_DECODE_WIDE;				-- COVERAGE_IGNORE
        end if;
    end;
end Wide_Decode_aux;
procedure Wide_Decode(val:out Wide; Stream : IN OUT Wide_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Wide_Decode_aux(val, Stream, result);
    if result.success then
        result := Wide_IsConstraintValid(val);
    end if;

end Wide_Decode;



function Jmb_Equal (val1, val2 :  Jmb) return Boolean
is

begin
	return val1 = val2;

end Jmb_Equal;

function Jmb_IsConstraintValid(val : Jmb) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (((((((((val = jj_1)) OR ((val = jj_2)))) OR ((val = jj_3)))) OR ((val = jj_4)))) OR ((val = jj_5)));
    ret.ErrorCode := (if ret.Success then 0 else ERR_JMB);
    return ret;
end Jmb_IsConstraintValid;



procedure Jmb_Encode_aux(val : Jmb; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Jmb_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        declare
            intVal:Asn1Int;
        begin
            case val is
                when jj_3    => intVal := 0;
                when jj_2    => intVal := 1;
                when jj_5    => intVal := 2;
                when jj_1    => intVal := 3;
                when jj_4    => intVal := 4;
            end case;
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, intVal, 0, 3);
        end;
    end if;

end Jmb_Encode_aux;

procedure Jmb_Encode(val : Jmb; Stream : out Jmb_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Jmb_uPER_Stream'(Size_In_Bytes => Jmb_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Jmb_Encode_aux(val, Stream, result);
end Jmb_Encode;

procedure Jmb_Decode_aux(val: out Jmb; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Jmb_Init;

    declare
        intVal:Asn1Int;
    begin
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, intVal, 0, 4, 3, result.Success);
        if result.Success then
            case Jmb_index_range(intVal) is
                when 0 => val := jj_3;
                when 1 => val := jj_2;
                when 2 => val := jj_5;
                when 3 => val := jj_1;
                when 4 => val := jj_4;
            end case;
            result.ErrorCode := 0;
        else
            val := jj_1;					-- COVERAGE_IGNORE
            result.ErrorCode := ERR_UPER_DECODE_JMB;				-- COVERAGE_IGNORE
        end if;
    end;
end Jmb_Decode_aux;
procedure Jmb_Decode(val:out Jmb; Stream : IN OUT Jmb_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Jmb_Decode_aux(val, Stream, result);
    if result.success then
        result := Jmb_IsConstraintValid(val);
    end if;

end Jmb_Decode;



function SoJmb_Equal (val1, val2 :  SoJmb) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := (val1.Data(i1) = val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end SoJmb_Equal;

function SoJmb_IsConstraintValid(val : SoJmb) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 6);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SOJMB);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := Jmb_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end SoJmb_IsConstraintValid;



procedure SoJmb_Encode_aux(val : SoJmb; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    result := SoJmb_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 6;
        result.errorCode := ERR_UPER_ENCODE_SOJMB;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 3);
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 3*(i1-1));
                Jmb_Encode_aux(val.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end SoJmb_Encode_aux;

procedure SoJmb_Encode(val : SoJmb; Stream : out SoJmb_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := SoJmb_uPER_Stream'(Size_In_Bytes => SoJmb_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    SoJmb_Encode_aux(val, Stream, result);
end SoJmb_Encode;

procedure SoJmb_Decode_aux(val: out SoJmb; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nStringLength:Integer;
begin
    -- val := SoJmb_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 6, 3, result.Success);
    result.errorCode := ERR_UPER_DECODE_SOJMB;
    i1 := 1;
    val.Length := nStringLength;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 3*(i1-1));
        Jmb_Decode_aux(val.Data(i1), bs, result);
        i1 := i1 + 1;
    end loop;
end SoJmb_Decode_aux;
procedure SoJmb_Decode(val:out SoJmb; Stream : IN OUT SoJmb_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    SoJmb_Decode_aux(val, Stream, result);
    if result.success then
        result := SoJmb_IsConstraintValid(val);
    end if;

end SoJmb_Decode;



function OctF_Equal (val1, val2 :  OctF) return Boolean
is

begin
	return val1.Data = val2.Data;

end OctF_Equal;

function OctF_IsConstraintValid(val : OctF) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end OctF_IsConstraintValid;



procedure OctF_Encode_aux(val : OctF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := OctF_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.Data, Integer(7));
    end if;

end OctF_Encode_aux;

procedure OctF_Encode(val : OctF; Stream : out OctF_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := OctF_uPER_Stream'(Size_In_Bytes => OctF_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    OctF_Encode_aux(val, Stream, result);
end OctF_Encode;

procedure OctF_Decode_aux(val: out OctF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := OctF_Init;

    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
    adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.Data, Integer(7), result.success);
end OctF_Decode_aux;
procedure OctF_Decode(val:out OctF; Stream : IN OUT OctF_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    OctF_Decode_aux(val, Stream, result);
    if result.success then
        result := OctF_IsConstraintValid(val);
    end if;

end OctF_Decode;



function OctV_Equal (val1, val2 :  OctV) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end OctV_Equal;

function OctV_IsConstraintValid(val : OctV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 40);
    ret.ErrorCode := (if ret.Success then 0 else ERR_OCTV);
    return ret;
end OctV_IsConstraintValid;



procedure OctV_Encode_aux(val : OctV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := OctV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 40;
        result.errorCode := ERR_UPER_ENCODE_OCTV;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 6);
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.Data, Integer(val.Length));
        end if;
    end if;

end OctV_Encode_aux;

procedure OctV_Encode(val : OctV; Stream : out OctV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := OctV_uPER_Stream'(Size_In_Bytes => OctV_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    OctV_Encode_aux(val, Stream, result);
end OctV_Encode;

procedure OctV_Decode_aux(val: out OctV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    nStringLength:Integer;
begin
    -- val := OctV_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 40, 6, result.Success);
    result.errorCode := ERR_UPER_DECODE_OCTV;
    val.Length := nStringLength;
    if result.Success then
        adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.Data, Integer(val.Length), result.success);
    end if;
end OctV_Decode_aux;
procedure OctV_Decode(val:out OctV; Stream : IN OUT OctV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    OctV_Decode_aux(val, Stream, result);
    if result.success then
        result := OctV_IsConstraintValid(val);
    end if;

end OctV_Decode;



function OctBig_Equal (val1, val2 :  OctBig) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end OctBig_Equal;

function OctBig_IsConstraintValid(val : OctBig) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 300);
    ret.ErrorCode := (if ret.Success then 0 else ERR_OCTBIG);
    return ret;
end OctBig_IsConstraintValid;



procedure OctBig_Encode_aux(val : OctBig; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := OctBig_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 300;
        result.errorCode := ERR_UPER_ENCODE_OCTBIG;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 9);
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.Data, Integer(val.Length));
        end if;
    end if;

end OctBig_Encode_aux;

procedure OctBig_Encode(val : OctBig; Stream : out OctBig_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := OctBig_uPER_Stream'(Size_In_Bytes => OctBig_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    OctBig_Encode_aux(val, Stream, result);
end OctBig_Encode;

procedure OctBig_Decode_aux(val: out OctBig; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    nStringLength:Integer;
begin
    -- val := OctBig_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 300, 9, result.Success);
    result.errorCode := ERR_UPER_DECODE_OCTBIG;
    val.Length := nStringLength;
    if result.Success then
        adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.Data, Integer(val.Length), result.success);
    end if;
end OctBig_Decode_aux;
procedure OctBig_Decode(val:out OctBig; Stream : IN OUT OctBig_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    OctBig_Decode_aux(val, Stream, result);
    if result.success then
        result := OctBig_IsConstraintValid(val);
    end if;

end OctBig_Decode;



function Oct1_Equal (val1, val2 :  Oct1) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end Oct1_Equal;

function Oct1_IsConstraintValid(val : Oct1) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 2));
    ret.ErrorCode := (if ret.Success then 0 else ERR_OCT1);
    return ret;
end Oct1_IsConstraintValid;



procedure Oct1_Encode_aux(val : Oct1; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Oct1_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 1 AND val.Length <= 2;
        result.errorCode := ERR_UPER_ENCODE_OCT1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 1, 1);
            adaasn1rtl.encoding.uper.BitStream_EncodeOctetString_no_length(bs, val.Data, Integer(val.Length));
        end if;
    end if;

end Oct1_Encode_aux;

procedure Oct1_Encode(val : Oct1; Stream : out Oct1_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Oct1_uPER_Stream'(Size_In_Bytes => Oct1_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Oct1_Encode_aux(val, Stream, result);
end Oct1_Encode;

procedure Oct1_Decode_aux(val: out Oct1; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    nStringLength:Integer;
begin
    -- val := Oct1_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 1, 2, 1, result.Success);
    result.errorCode := ERR_UPER_DECODE_OCT1;
    val.Length := nStringLength;
    if result.Success then
        adaasn1rtl.encoding.uper.BitStream_DecodeOctetString_no_length(bs, val.Data, Integer(val.Length), result.success);
    end if;
end Oct1_Decode_aux;
procedure Oct1_Decode(val:out Oct1; Stream : IN OUT Oct1_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Oct1_Decode_aux(val, Stream, result);
    if result.success then
        result := Oct1_IsConstraintValid(val);
    end if;

end Oct1_Decode;



function BitF_Equal (val1, val2 :  BitF) return Boolean
is

begin
	return val1.Data = val2.Data;

end BitF_Equal;

function BitF_IsConstraintValid(val : BitF) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end BitF_IsConstraintValid;



procedure BitF_Encode_aux(val : BitF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BitF_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.Data, Integer(13));
    end if;

end BitF_Encode_aux;

procedure BitF_Encode(val : BitF; Stream : out BitF_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := BitF_uPER_Stream'(Size_In_Bytes => BitF_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    BitF_Encode_aux(val, Stream, result);
end BitF_Encode;

procedure BitF_Decode_aux(val: out BitF; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := BitF_Init;

    adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.Data, Integer(13), result.success);
    if not result.Success then
        result.errorcode := ERR_UPER_DECODE_BITF; -- COVERAGE_IGNORE
    end if;
end BitF_Decode_aux;
procedure BitF_Decode(val:out BitF; Stream : IN OUT BitF_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    BitF_Decode_aux(val, Stream, result);
    if result.success then
        result := BitF_IsConstraintValid(val);
    end if;

end BitF_Decode;



function BitV_Equal (val1, val2 :  BitV) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end BitV_Equal;

function BitV_IsConstraintValid(val : BitV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 50));
    ret.ErrorCode := (if ret.Success then 0 else ERR_BITV);
    return ret;
end BitV_IsConstraintValid;



procedure BitV_Encode_aux(val : BitV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BitV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 1 AND val.Length <= 50;
        result.errorCode := ERR_UPER_ENCODE_BITV;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 1, 6);
            adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.Data, Integer(val.Length));
        end if;
    end if;

end BitV_Encode_aux;

procedure BitV_Encode(val : BitV; Stream : out BitV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := BitV_uPER_Stream'(Size_In_Bytes => BitV_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    BitV_Encode_aux(val, Stream, result);
end BitV_Encode;

procedure BitV_Decode_aux(val: out BitV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    nStringLength:Integer;
begin
    -- val := BitV_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 1, 50, 6, result.Success);
    result.errorCode := ERR_UPER_DECODE_BITV;
    if result.Success then
    	val.Length := nStringLength;
    	adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.Data, Integer(val.Length), result.success);
    	if not result.Success then
    	    result.errorcode := ERR_UPER_DECODE_BITV; -- COVERAGE_IGNORE
    	end if;
    end if;
end BitV_Decode_aux;
procedure BitV_Decode(val:out BitV; Stream : IN OUT BitV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    BitV_Decode_aux(val, Stream, result);
    if result.success then
        result := BitV_IsConstraintValid(val);
    end if;

end BitV_Decode;



function BitB_Equal (val1, val2 :  BitB) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end BitB_Equal;

function BitB_IsConstraintValid(val : BitB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val.Length <= 200);
    ret.ErrorCode := (if ret.Success then 0 else ERR_BITB);
    return ret;
end BitB_IsConstraintValid;



procedure BitB_Encode_aux(val : BitB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := BitB_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 200;
        result.errorCode := ERR_UPER_ENCODE_BITB;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 8);
            adaasn1rtl.encoding.BitStream_AppendBitArray(bs, val.Data, Integer(val.Length));
        end if;
    end if;

end BitB_Encode_aux;

procedure BitB_Encode(val : BitB; Stream : out BitB_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := BitB_uPER_Stream'(Size_In_Bytes => BitB_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    BitB_Encode_aux(val, Stream, result);
end BitB_Encode;

procedure BitB_Decode_aux(val: out BitB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    nStringLength:Integer;
begin
    -- val := BitB_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 200, 8, result.Success);
    result.errorCode := ERR_UPER_DECODE_BITB;
    if result.Success then
    	val.Length := nStringLength;
    	adaasn1rtl.encoding.BitStream_ReadBitArray(bs, val.Data, Integer(val.Length), result.success);
    	if not result.Success then
    	    result.errorcode := ERR_UPER_DECODE_BITB; -- COVERAGE_IGNORE
    	end if;
    end if;
end BitB_Decode_aux;
procedure BitB_Decode(val:out BitB; Stream : IN OUT BitB_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    BitB_Decode_aux(val, Stream, result);
    if result.success then
        result := BitB_IsConstraintValid(val);
    end if;

end BitB_Decode;



function StrV_Equal (val1, val2 :  StrV) return Boolean
is

begin
	return val1 = val2;

end StrV_Equal;

function StrV_IsConstraintValid(val : StrV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) <= 20);
    ret.ErrorCode := (if ret.Success then 0 else ERR_STRV);
    return ret;
end StrV_IsConstraintValid;



procedure StrV_Encode_aux(val : StrV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    result := StrV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        nStringLength := adaasn1rtl.getStringSize(val);
        result.Success := nStringLength >= 0 AND nStringLength <= 20;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nStringLength), 0, 5);
            while i1<= nStringLength loop
                pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 7*(i1-1));
                charIndex := adaasn1rtl.CharacterPos(val(i1));
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 7);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end StrV_Encode_aux;

procedure StrV_Encode(val : StrV; Stream : out StrV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := StrV_uPER_Stream'(Size_In_Bytes => StrV_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    StrV_Encode_aux(val, Stream, result);
end StrV_Encode;

procedure StrV_Decode_aux(val: out StrV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    -- val := StrV_Init;

    --val := StrV_Init;
    result.ErrorCode := adaasn1rtl.ERR_INSUFFICIENT_DATA;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 20, 5, result.Success);
    i1 := 1;
    while i1<= nStringLength AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 7*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 127, 7, result.Success);
        result.ErrorCode := ERR_UPER_DECODE_STRV;
        val(i1) := Character'Val(charIndex);
        i1 := i1 + 1;
    end loop;

    --add nulls until the end
    while i1<= 20 + 1  loop
        pragma Loop_Invariant (i1 >=1 and i1<=20 + 1);
        val(i1) := adaasn1rtl.NUL;
        i1 := i1 + 1;
    end loop;
end StrV_Decode_aux;
procedure StrV_Decode(val:out StrV; Stream : IN OUT StrV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    StrV_Decode_aux(val, Stream, result);
    if result.success then
        result := StrV_IsConstraintValid(val);
    end if;

end StrV_Decode;



function StrA_Equal (val1, val2 :  StrA) return Boolean
is

begin
	return val1 = val2;

end StrA_Equal;

function StrA_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := (('A' <= str(i)) AND (str(i) <= 'Z'));
        I := I + 1;
    end loop;
    return ret;
end StrA_CharsAreValid_0;
function StrA_IsConstraintValid(val : StrA) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) = 5);
    if ret.Success then
        ret.Success := StrA_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_STRA);
    return ret;
end StrA_IsConstraintValid;



procedure StrA_Encode_aux(val : StrA; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
begin
    result := StrA_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        i1 := 1;
        while i1<= 5 loop
            pragma Loop_Invariant (i1 >=1 and i1<=5);
            pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
            pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
            charIndex := adaasn1rtl.GetZeroBasedCharIndex(val(i1), StrA_alpha_set);
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 5);
            i1 := i1 + 1;
        end loop;
    end if;

end StrA_Encode_aux;

procedure StrA_Encode(val : StrA; Stream : out StrA_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := StrA_uPER_Stream'(Size_In_Bytes => StrA_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    StrA_Encode_aux(val, Stream, result);
end StrA_Encode;

procedure StrA_Decode_aux(val: out StrA; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
begin
    -- val := StrA_Init;

    --val := StrA_Init;
    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
    i1 := 1;
    while i1<= 5 AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=5);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 5*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 25, 5, result.Success);
        result.ErrorCode := ERR_UPER_DECODE_STRA;
        val(i1) := StrA_alpha_set(charIndex+1);
        i1 := i1 + 1;
    end loop;
    val(5 + 1) := adaasn1rtl.NUL;
end StrA_Decode_aux;
procedure StrA_Decode(val:out StrA; Stream : IN OUT StrA_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    StrA_Decode_aux(val, Stream, result);
    if result.success then
        result := StrA_IsConstraintValid(val);
    end if;

end StrA_Decode;



function StrQ_Equal (val1, val2 :  StrQ) return Boolean
is

begin
	return val1 = val2;

end StrQ_Equal;

function StrQ_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := ((((((adaasn1rtl.encoding.stringContainsChar("" & "<", str(i))) OR (adaasn1rtl.encoding.stringContainsChar("" & """", str(i))))) OR (adaasn1rtl.encoding.stringContainsChar("" & "\", str(i))))) OR (adaasn1rtl.encoding.stringContainsChar("" & "'", str(i))));
        I := I + 1;
    end loop;
    return ret;
end StrQ_CharsAreValid_0;
function StrQ_IsConstraintValid(val : StrQ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= adaasn1rtl.getStringSize(val)) AND (adaasn1rtl.getStringSize(val) <= 9));
    if ret.Success then
        ret.Success := StrQ_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_STRQ);
    return ret;
end StrQ_IsConstraintValid;



procedure StrQ_Encode_aux(val : StrQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    result := StrQ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        nStringLength := adaasn1rtl.getStringSize(val);
        result.Success := nStringLength >= 1 AND nStringLength <= 9;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nStringLength), 1, 4);
            while i1<= nStringLength loop
                pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 2*(i1-1));
                charIndex := adaasn1rtl.GetZeroBasedCharIndex(val(i1), StrQ_alpha_set);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 2);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end StrQ_Encode_aux;

procedure StrQ_Encode(val : StrQ; Stream : out StrQ_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := StrQ_uPER_Stream'(Size_In_Bytes => StrQ_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    StrQ_Encode_aux(val, Stream, result);
end StrQ_Encode;

procedure StrQ_Decode_aux(val: out StrQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    -- val := StrQ_Init;

    --val := StrQ_Init;
    result.ErrorCode := adaasn1rtl.ERR_INSUFFICIENT_DATA;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 1, 9, 4, result.Success);
    i1 := 1;
    while i1<= nStringLength AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 2*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 3, 2, result.Success);
        result.ErrorCode := ERR_UPER_DECODE_STRQ;
        val(i1) := StrQ_alpha_set(charIndex+1);
        i1 := i1 + 1;
    end loop;

    --add nulls until the end
    while i1<= 9 + 1  loop
        pragma Loop_Invariant (i1 >=1 and i1<=9 + 1);
        val(i1) := adaasn1rtl.NUL;
        i1 := i1 + 1;
    end loop;
end StrQ_Decode_aux;
procedure StrQ_Decode(val:out StrQ; Stream : IN OUT StrQ_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    StrQ_Decode_aux(val, Stream, result);
    if result.success then
        result := StrQ_IsConstraintValid(val);
    end if;

end StrQ_Decode;



function StrR_Equal (val1, val2 :  StrR) return Boolean
is

begin
	return val1 = val2;

end StrR_Equal;

function StrR_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := (((((('!' <= str(i)) AND (str(i) <= '"'))) OR ((('Z' <= str(i)) AND (str(i) <= '\'))))) OR (((''' <= str(i)) AND (str(i) <= '('))));
        I := I + 1;
    end loop;
    return ret;
end StrR_CharsAreValid_0;
function StrR_IsConstraintValid(val : StrR) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (adaasn1rtl.getStringSize(val) <= 12);
    if ret.Success then
        ret.Success := StrR_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_STRR);
    return ret;
end StrR_IsConstraintValid;



procedure StrR_Encode_aux(val : StrR; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    result := StrR_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        nStringLength := adaasn1rtl.getStringSize(val);
        result.Success := nStringLength >= 0 AND nStringLength <= 12;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nStringLength), 0, 4);
            while i1<= nStringLength loop
                pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 3*(i1-1));
                charIndex := adaasn1rtl.GetZeroBasedCharIndex(val(i1), StrR_alpha_set);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 3);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end StrR_Encode_aux;

procedure StrR_Encode(val : StrR; Stream : out StrR_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := StrR_uPER_Stream'(Size_In_Bytes => StrR_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    StrR_Encode_aux(val, Stream, result);
end StrR_Encode;

procedure StrR_Decode_aux(val: out StrR; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    -- val := StrR_Init;

    --val := StrR_Init;
    result.ErrorCode := adaasn1rtl.ERR_INSUFFICIENT_DATA;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 12, 4, result.Success);
    i1 := 1;
    while i1<= nStringLength AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 3*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 6, 3, result.Success);
        result.ErrorCode := ERR_UPER_DECODE_STRR;
        val(i1) := StrR_alpha_set(charIndex+1);
        i1 := i1 + 1;
    end loop;

    --add nulls until the end
    while i1<= 12 + 1  loop
        pragma Loop_Invariant (i1 >=1 and i1<=12 + 1);
        val(i1) := adaasn1rtl.NUL;
        i1 := i1 + 1;
    end loop;
end StrR_Decode_aux;
procedure StrR_Decode(val:out StrR; Stream : IN OUT StrR_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    StrR_Decode_aux(val, Stream, result);
    if result.success then
        result := StrR_IsConstraintValid(val);
    end if;

end StrR_Decode;



function StrS_Equal (val1, val2 :  StrS) return Boolean
is

begin
	return val1 = val2;

end StrS_Equal;

function StrS_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := adaasn1rtl.encoding.stringContainsChar("" & "<>&""';\-", str(i));
        I := I + 1;
    end loop;
    return ret;
end StrS_CharsAreValid_0;
function StrS_IsConstraintValid(val : StrS) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((2 <= adaasn1rtl.getStringSize(val)) AND (adaasn1rtl.getStringSize(val) <= 7));
    if ret.Success then
        ret.Success := StrS_CharsAreValid_0(val);
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_STRS);
    return ret;
end StrS_IsConstraintValid;



procedure StrS_Encode_aux(val : StrS; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    result := StrS_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        nStringLength := adaasn1rtl.getStringSize(val);
        result.Success := nStringLength >= 2 AND nStringLength <= 7;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nStringLength), 2, 3);
            while i1<= nStringLength loop
                pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 3*(i1-1));
                charIndex := adaasn1rtl.GetZeroBasedCharIndex(val(i1), StrS_alpha_set);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 3);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end StrS_Encode_aux;

procedure StrS_Encode(val : StrS; Stream : out StrS_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := StrS_uPER_Stream'(Size_In_Bytes => StrS_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    StrS_Encode_aux(val, Stream, result);
end StrS_Encode;

procedure StrS_Decode_aux(val: out StrS; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    -- val := StrS_Init;

    --val := StrS_Init;
    result.ErrorCode := adaasn1rtl.ERR_INSUFFICIENT_DATA;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 2, 7, 3, result.Success);
    i1 := 1;
    while i1<= nStringLength AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 3*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 7, 3, result.Success);
        result.ErrorCode := ERR_UPER_DECODE_STRS;
        val(i1) := StrS_alpha_set(charIndex+1);
        i1 := i1 + 1;
    end loop;

    --add nulls until the end
    while i1<= 7 + 1  loop
        pragma Loop_Invariant (i1 >=1 and i1<=7 + 1);
        val(i1) := adaasn1rtl.NUL;
        i1 := i1 + 1;
    end loop;
end StrS_Decode_aux;
procedure StrS_Decode(val:out StrS; Stream : IN OUT StrS_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    StrS_Decode_aux(val, Stream, result);
    if result.success then
        result := StrS_IsConstraintValid(val);
    end if;

end StrS_Decode;



function StrN_Equal (val1, val2 :  StrN) return Boolean
is

begin
	return val1 = val2;

end StrN_Equal;

function StrN_CharsAreValid_0 (str : String) return boolean
  with
      pre => STR'First=1 AND STR'Last>=STR'First AND STR'Last<=Integer'LAST-1
is
    ret:boolean:=true;
    I:Integer:=1;
    strLen :constant Integer := adaasn1rtl.getStringSize(str);
begin
    while I<= strLen and ret loop
        pragma Loop_Invariant (I>=1 and I<=str'Last);
        ret := adaasn1rtl.encoding.stringContainsChar("" & " 0123456789", str(i));
        I := I + 1;
    end loop;
    return ret;
end StrN_CharsAreValid_0;
function StrN_IsConstraintValid(val : StrN) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := StrN_CharsAreValid_0(val);
    if ret.Success then
        ret.Success := ((1 <= adaasn1rtl.getStringSize(val)) AND (adaasn1rtl.getStringSize(val) <= 9));
    end if;
    ret.ErrorCode := (if ret.Success then 0 else ERR_STRN);
    return ret;
end StrN_IsConstraintValid;



procedure StrN_Encode_aux(val : StrN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    result := StrN_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        nStringLength := adaasn1rtl.getStringSize(val);
        result.Success := nStringLength >= 1 AND nStringLength <= 9;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nStringLength), 1, 4);
            while i1<= nStringLength loop
                pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 4*(i1-1));
                charIndex := adaasn1rtl.GetZeroBasedCharIndex(val(i1), StrN_alpha_set);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(charIndex), 0, 4);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end StrN_Encode_aux;

procedure StrN_Encode(val : StrN; Stream : out StrN_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := StrN_uPER_Stream'(Size_In_Bytes => StrN_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    StrN_Encode_aux(val, Stream, result);
end StrN_Encode;

procedure StrN_Decode_aux(val: out StrN; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    charIndex:Integer;
    nStringLength:Integer;
begin
    -- val := StrN_Init;

    --val := StrN_Init;
    result.ErrorCode := adaasn1rtl.ERR_INSUFFICIENT_DATA;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 1, 9, 4, result.Success);
    i1 := 1;
    while i1<= nStringLength AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=nStringLength);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 4*(i1-1));
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, charIndex, 0, 10, 4, result.Success);
        result.ErrorCode := ERR_UPER_DECODE_STRN;
        val(i1) := StrN_alpha_set(charIndex+1);
        i1 := i1 + 1;
    end loop;

    --add nulls until the end
    while i1<= 9 + 1  loop
        pragma Loop_Invariant (i1 >=1 and i1<=9 + 1);
        val(i1) := adaasn1rtl.NUL;
        i1 := i1 + 1;
    end loop;
end StrN_Decode_aux;
procedure StrN_Decode(val:out StrN; Stream : IN OUT StrN_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    StrN_Decode_aux(val, Stream, result);
    if result.success then
        result := StrN_IsConstraintValid(val);
    end if;

end StrN_Decode;



function Oid_Equal (val1, val2 :  Oid) return Boolean
is

begin
	return adaasn1rtl.ObjectIdentifier_equal(val1, val2);

end Oid_Equal;

function Oid_IsConstraintValid(val : Oid) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := adaasn1rtl.ObjectIdentifier_isValid(val);
    ret.ErrorCode := (if ret.Success then 0 else ERR_OID);
    return ret;
end Oid_IsConstraintValid;



procedure Oid_Encode_aux(val : Oid; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Oid_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.ObjectIdentifier_uper_encode(bs, val);
    end if;

end Oid_Encode_aux;

procedure Oid_Encode(val : Oid; Stream : out Oid_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Oid_uPER_Stream'(Size_In_Bytes => Oid_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Oid_Encode_aux(val, Stream, result);
end Oid_Encode;

procedure Oid_Decode_aux(val: out Oid; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Oid_Init;

    adaasn1rtl.encoding.uper.ObjectIdentifier_uper_decode(bs, val, result);
end Oid_Decode_aux;
procedure Oid_Decode(val:out Oid; Stream : IN OUT Oid_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Oid_Decode_aux(val, Stream, result);
    if result.success then
        result := Oid_IsConstraintValid(val);
    end if;

end Oid_Decode;



function ROid_Equal (val1, val2 :  ROid) return Boolean
is

begin
	return adaasn1rtl.ObjectIdentifier_equal(val1, val2);

end ROid_Equal;

function ROid_IsConstraintValid(val : ROid) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := adaasn1rtl.RelativeOID_isValid(val);
    ret.ErrorCode := (if ret.Success then 0 else ERR_ROID);
    return ret;
end ROid_IsConstraintValid;



procedure ROid_Encode_aux(val : ROid; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := ROid_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.uper.RelativeOID_uper_encode(bs, val);
    end if;

end ROid_Encode_aux;

procedure ROid_Encode(val : ROid; Stream : out ROid_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := ROid_uPER_Stream'(Size_In_Bytes => ROid_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    ROid_Encode_aux(val, Stream, result);
end ROid_Encode;

procedure ROid_Decode_aux(val: out ROid; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := ROid_Init;

    adaasn1rtl.encoding.uper.RelativeOID_uper_decode(bs, val, result);
end ROid_Decode_aux;
procedure ROid_Decode(val:out ROid; Stream : IN OUT ROid_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    ROid_Decode_aux(val, Stream, result);
    if result.success then
        result := ROid_IsConstraintValid(val);
    end if;

end ROid_Decode;



function Nums_Equal (val1, val2 :  Nums) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.n_a = val2.n_a);

    if ret then
        ret := (val1.n_b = val2.n_b);

        if ret then
            ret := (val1.n_c = val2.n_c);

            if ret then
                ret := (val1.n_d = val2.n_d);

                if ret then
                    ret := (val1.n_e = val2.n_e);

                    if ret then
                        ret := (val1.n_f = val2.n_f);

                        if ret then
                            ret := (val1.n_g = val2.n_g);

                            if ret then
                                ret := (adaasn1rtl.Asn1Real_Equal(val1.n_h, val2.n_h));

                                if ret then
                                    ret := (val1.n_i = val2.n_i);

                                    if ret then
                                        ret := Oid_Equal(val1.n_o, val2.n_o);

                                        if ret then
                                            ret := val1.Exist.n_p = val2.Exist.n_p;
                                            if ret and then val1.Exist.n_p = 1 then
                                                ret := ROid_Equal(val1.n_p, val2.n_p);
                                            end if;

                                            if ret then
                                                ret := Oct1_Equal(val1.n_q, val2.n_q);

                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end Nums_Equal;

function Nums_IsConstraintValid(val : Nums) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := I32_IsConstraintValid(val.n_a);
    if ret.Success then
        ret := U32_IsConstraintValid(val.n_b);
        if ret.Success then
            ret := I17_IsConstraintValid(val.n_c);
            if ret.Success then
                ret := SemiN_IsConstraintValid(val.n_d);
                if ret.Success then
                    ret := UpTo_IsConstraintValid(val.n_e);
                    if ret.Success then
                        ret := U1_IsConstraintValid(val.n_f);
                        if ret.Success then
                            ret := Wide_IsConstraintValid(val.n_g);
                            if ret.Success then
                                ret := RlC_IsConstraintValid(val.n_h);
                                if ret.Success then
                                    ret := U8_IsConstraintValid(val.n_i);
                                    if ret.Success then
                                        ret := Oid_IsConstraintValid(val.n_o);
                                        if ret.Success then
                                            if val.Exist.n_p = 1 then
                                                ret := ROid_IsConstraintValid(val.n_p);
                                            end if;
                                            if ret.Success then
                                                ret := Oct1_IsConstraintValid(val.n_q);
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end Nums_IsConstraintValid;



procedure Nums_Encode_aux(val : Nums; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Nums_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.n_p);
        if result.Success then
            --Encode n_a
            I32_Encode_aux(val.n_a, bs, result);
            if result.Success then
                --Encode n_b
                U32_Encode_aux(val.n_b, bs, result);
                if result.Success then
                    --Encode n_c
                    I17_Encode_aux(val.n_c, bs, result);
                    if result.Success then
                        --Encode n_d
                        SemiN_Encode_aux(val.n_d, bs, result);
                        if result.Success then
                            --Encode n_e
                            UpTo_Encode_aux(val.n_e, bs, result);
                            if result.Success then
                                --Encode n_f
                                U1_Encode_aux(val.n_f, bs, result);
                                if result.Success then
                                    --Encode n_g
                                    Wide_Encode_aux(val.n_g, bs, result);
                                    if result.Success then
                                        --Encode n_h
                                        RlC_Encode_aux(val.n_h, bs, result);
                                        if result.Success then
                                            --Encode n_i
                                            U8_Encode_aux(val.n_i, bs, result);
                                            if result.Success then
                                                --Encode n_o
                                                Oid_Encode_aux(val.n_o, bs, result);
                                                if result.Success then
                                                    --Encode n_p
                                                    if val.Exist.n_p = 1 then
                                                    	ROid_Encode_aux(val.n_p, bs, result);
                                                    end if;
                                                    if result.Success then
                                                        --Encode n_q
                                                        Oct1_Encode_aux(val.n_q, bs, result);
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;

end Nums_Encode_aux;

procedure Nums_Encode(val : Nums; Stream : out Nums_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Nums_uPER_Stream'(Size_In_Bytes => Nums_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Nums_Encode_aux(val, Stream, result);
end Nums_Encode;

procedure Nums_Decode_aux(val: out Nums; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Nums_Init;

    result.ErrorCode := ERR_UPER_DECODE_NUMS;
    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.n_p, result.Success);
    if result.Success then
        --Decode n_a
        I32_Decode_aux(val.n_a, bs, result);
        if result.Success then
            --Decode n_b
            U32_Decode_aux(val.n_b, bs, result);
            if result.Success then
                --Decode n_c
                I17_Decode_aux(val.n_c, bs, result);
                if result.Success then
                    --Decode n_d
                    SemiN_Decode_aux(val.n_d, bs, result);
                    if result.Success then
                        --Decode n_e
                        UpTo_Decode_aux(val.n_e, bs, result);
                        if result.Success then
                            --Decode n_f
                            U1_Decode_aux(val.n_f, bs, result);
                            if result.Success then
                                --Decode n_g
                                Wide_Decode_aux(val.n_g, bs, result);
                                if result.Success then
                                    --Decode n_h
                                    RlC_Decode_aux(val.n_h, bs, result);
                                    if result.Success then
                                        --Decode n_i
                                        U8_Decode_aux(val.n_i, bs, result);
                                        if result.Success then
                                            --Decode n_o
                                            Oid_Decode_aux(val.n_o, bs, result);
                                            if result.Success then
                                                --Decode n_p
                                                if val.Exist.n_p = 1 then
                                                	ROid_Decode_aux(val.n_p, bs, result);
                                                end if;
                                                if result.Success then
                                                    --Decode n_q
                                                    Oct1_Decode_aux(val.n_q, bs, result);
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Nums_Decode_aux;
procedure Nums_Decode(val:out Nums; Stream : IN OUT Nums_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Nums_Decode_aux(val, Stream, result);
    if result.success then
        result := Nums_IsConstraintValid(val);
    end if;

end Nums_Decode;



function Nul_Equal (val1, val2 :  Nul) return Boolean
is
   pragma Unreferenced (val1);
   pragma Unreferenced (val2);

begin
	return True;

end Nul_Equal;



procedure Nul_Encode_aux(val : Nul; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    pragma Unreferenced (bs);
    pragma Unreferenced (val);

begin
    result := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    null;

end Nul_Encode_aux;

procedure Nul_Encode(val : Nul; Stream : out Nul_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Nul_uPER_Stream'(Size_In_Bytes => 1, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Nul_Encode_aux(val, Stream, result);
end Nul_Encode;

pragma Warnings (Off, "unused initial value of ""val""");
procedure Nul_Decode_aux(val: out Nul; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is
    pragma Unreferenced (bs);
    pragma Unreferenced (val);

begin
    -- val := Nul_Init;

    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
end Nul_Decode_aux;
pragma Warnings (On, "unused initial value of ""val""");

procedure Nul_Decode(val:out Nul; Stream : IN OUT Nul_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Nul_Decode_aux(val, Stream, result);
end Nul_Decode;



function Chc_c_a_Equal (val1, val2 :  Chc_c_a) return Boolean
is

begin
	return val1 = val2;

end Chc_c_a_Equal;

function Chc_Equal (val1, val2 :  Chc) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when c_a_PRESENT =>
                ret := Chc_c_a_Equal(val1.c_a, val2.c_a);
            when c_b_PRESENT =>
                ret := (val1.c_b = val2.c_b);
            when c_c_PRESENT =>
                ret := OctV_Equal(val1.c_c, val2.c_c);
            when c_d_PRESENT =>
                ret := (val1.c_d = val2.c_d);
            when c_e_PRESENT =>
                ret := (adaasn1rtl.Asn1Real_Equal(val1.c_e, val2.c_e));
            when c_f_PRESENT =>
                ret := Pt_Equal(val1.c_f, val2.c_f);
            when c_g_PRESENT =>
                ret := True;
        end case;
    end if;
	return ret;

end Chc_Equal;

function Chc_c_a_IsConstraintValid(val : Chc_c_a) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CHC_C_A);
    return ret;
end Chc_c_a_IsConstraintValid;

function Chc_IsConstraintValid(val : Chc) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN c_a_PRESENT =>
            ret := Chc_c_a_IsConstraintValid(val.c_a);
        WHEN c_b_PRESENT =>
            ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
        WHEN c_c_PRESENT =>
            ret := OctV_IsConstraintValid(val.c_c);
        WHEN c_d_PRESENT =>
            ret := StrV_IsConstraintValid(val.c_d);
        WHEN c_e_PRESENT =>
            ret := Rl_IsConstraintValid(val.c_e);
        WHEN c_f_PRESENT =>
            ret := Pt_IsConstraintValid(val.c_f);
        WHEN c_g_PRESENT =>
            ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    end case;
    return ret;
end Chc_IsConstraintValid;




procedure Chc_Encode_aux(val : Chc; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Chc_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val.kind is
            when c_a_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 0, 0, 3);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.c_a, 0, 2);
            when c_b_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 1, 0, 3);
                adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.c_b);
            when c_c_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 2, 0, 3);
                OctV_Encode_aux(val.c_c, bs, result);
            when c_d_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 3, 0, 3);
                StrV_Encode_aux(val.c_d, bs, result);
            when c_e_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 4, 0, 3);
                Rl_Encode_aux(val.c_e, bs, result);
            when c_f_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 5, 0, 3);
                Pt_Encode_aux(val.c_f, bs, result);
            when c_g_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 6, 0, 3);
                Nul_Encode_aux(val.c_g, bs, result);
        end case;
    end if;

end Chc_Encode_aux;

procedure Chc_Encode(val : Chc; Stream : out Chc_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Chc_uPER_Stream'(Size_In_Bytes => Chc_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Chc_Encode_aux(val, Stream, result);
end Chc_Encode;

procedure Chc_Decode_aux(val: out Chc; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    Chc_index_tmp:adaasn1rtl.Asn1Int;
begin
    -- val := Chc_Init;

    result.ErrorCode := ERR_UPER_DECODE_CHC;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, Chc_index_tmp, 0, 6, 3, result.Success);
    if result.Success and Chc_index_tmp >= 0 and  Chc_index_tmp <= 6 then
        case Chc_index_range(Chc_index_tmp) is
            when 0 =>
            val := Chc'(kind => c_a_PRESENT, c_a => 0);
            result.ErrorCode := ERR_UPER_DECODE_CHC_C_A;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.c_a, 0, 3, 2, result.Success);
            when 1 =>
            val := Chc'(kind => c_b_PRESENT, c_b => False);
            result.ErrorCode := ERR_UPER_DECODE_CHC_C_B;
            adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.c_b, result.Success);
            when 2 =>
            val := Chc'(kind => c_c_PRESENT, c_c => (Length => 0, Data => (others => 0)));
            OctV_Decode_aux(val.c_c, bs, result);
            when 3 =>
            val := Chc'(kind => c_d_PRESENT, c_d => (1 .. 20 => ' ', 21 => adaasn1rtl.NUL));
            StrV_Decode_aux(val.c_d, bs, result);
            when 4 =>
            val := Chc'(kind => c_e_PRESENT, c_e => 0.0000000000000000000E+000);
            Rl_Decode_aux(val.c_e, bs, result);
            when 5 =>
            val := Chc'(kind => c_f_PRESENT, c_f => Pt_Init);
            Pt_Decode_aux(val.c_f, bs, result);
            when 6 =>
            val := Chc'(kind => c_g_PRESENT, c_g => 0);
            Nul_Decode_aux(val.c_g, bs, result);
        end case;
    end if;
end Chc_Decode_aux;
procedure Chc_Decode(val:out Chc; Stream : IN OUT Chc_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Chc_Decode_aux(val, Stream, result);
    if result.success then
        result := Chc_IsConstraintValid(val);
    end if;

end Chc_Decode;



function Chc2_Equal (val1, val2 :  Chc2) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := val1.kind = val2.kind;
    if ret then
        case val1.kind is
            when d_a_PRESENT =>
                ret := Chc_Equal(val1.d_a, val2.d_a);
            when d_b_PRESENT =>
                ret := SoPt_Equal(val1.d_b, val2.d_b);
        end case;
    end if;
	return ret;

end Chc2_Equal;

function Chc2_IsConstraintValid(val : Chc2) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    case val.kind is
        WHEN d_a_PRESENT =>
            ret := Chc_IsConstraintValid(val.d_a);
        WHEN d_b_PRESENT =>
            ret := SoPt_IsConstraintValid(val.d_b);
    end case;
    return ret;
end Chc2_IsConstraintValid;



procedure Chc2_Encode_aux(val : Chc2; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Chc2_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        case val.kind is
            when d_a_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 0, 0, 1);
                Chc_Encode_aux(val.d_a, bs, result);
            when d_b_PRESENT =>
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 1, 0, 1);
                SoPt_Encode_aux(val.d_b, bs, result);
        end case;
    end if;

end Chc2_Encode_aux;

procedure Chc2_Encode(val : Chc2; Stream : out Chc2_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Chc2_uPER_Stream'(Size_In_Bytes => Chc2_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Chc2_Encode_aux(val, Stream, result);
end Chc2_Encode;

procedure Chc2_Decode_aux(val: out Chc2; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    Chc2_index_tmp:adaasn1rtl.Asn1Int;
begin
    -- val := Chc2_Init;

    result.ErrorCode := ERR_UPER_DECODE_CHC2;
    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumber(bs, Chc2_index_tmp, 0, 1, 1, result.Success);
    if result.Success and Chc2_index_tmp >= 0 and  Chc2_index_tmp <= 1 then
        case Chc2_index_range(Chc2_index_tmp) is
            when 0 =>
            val := Chc2'(kind => d_a_PRESENT, d_a => Chc_Init);
            Chc_Decode_aux(val.d_a, bs, result);
            when 1 =>
            val := Chc2'(kind => d_b_PRESENT, d_b => SoPt_Init);
            SoPt_Decode_aux(val.d_b, bs, result);
        end case;
    end if;
end Chc2_Decode_aux;
procedure Chc2_Decode(val:out Chc2; Stream : IN OUT Chc2_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Chc2_Decode_aux(val, Stream, result);
    if result.success then
        result := Chc2_IsConstraintValid(val);
    end if;

end Chc2_Decode;



function CnV_p_Equal (val1, val2 :  CnV_p) return Boolean
is

begin
	return val1 = val2;

end CnV_p_Equal;

function CnV_Equal (val1, val2 :  CnV) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := CnV_p_Equal(val1.p, val2.p);

    if ret then
        ret := val1.Exist.c = val2.Exist.c;
        if ret and then val1.Exist.c = 1 then
            ret := OctBig_Equal(val1.c, val2.c);
        end if;

        if ret then
            ret := Chc_Equal(val1.d, val2.d);

        end if;
    end if;
	return ret;

end CnV_Equal;

function CnV_p_IsConstraintValid(val : CnV_p) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_CNV_P);
    return ret;
end CnV_p_IsConstraintValid;

function CnV_IsConstraintValid(val : CnV) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := CnV_p_IsConstraintValid(val.p);
    if ret.Success then
        if val.Exist.c = 1 then
            ret := OctBig_IsConstraintValid(val.c);
        end if;
        if ret.Success then
            ret := Chc_IsConstraintValid(val.d);
        end if;
    end if;
    return ret;
end CnV_IsConstraintValid;




procedure CnV_Encode_aux(val : CnV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := CnV_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.c);
        if result.Success then
            --Encode p
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.p, 0, 3);
            if result.Success then
                --Encode c
                if val.Exist.c = 1 then
                	--open new scope to declare some variables
                	declare
                	    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(OctBig_REQUIRED_BYTES_FOR_ENCODING);
                		data_length : Integer;
                	begin
                		--encode value to a temporary bit stream
                		OctBig_Encode_aux(val.c, tmpBs, result);
                		if result.success then
                			data_length := adaasn1rtl.encoding.BitStream_current_length_in_bytes(tmpBs);
                			adaasn1rtl.encoding.uper.BitStream_EncodeOctetString(bs, tmpBs.Buffer, data_length, 9, 2, 302);
                		end if;
                	end;
                end if;
                if result.Success then
                    --Encode d
                    --open new scope to declare some variables
                    declare
                        tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(Chc_REQUIRED_BYTES_FOR_ENCODING);
                    	data_length : Integer;
                    begin
                    	--encode value to a temporary bit stream
                    	Chc_Encode_aux(val.d, tmpBs, result);
                    	if result.success then
                    		data_length := tmpBs.Current_Bit_Pos;
                    		adaasn1rtl.encoding.uper.BitStream_EncodeBitString(bs, tmpBs.Buffer, data_length, 9, 3, 329);
                    	end if;
                    end;
                end if;
            end if;
        end if;
    end if;

end CnV_Encode_aux;

procedure CnV_Encode(val : CnV; Stream : out CnV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := CnV_uPER_Stream'(Size_In_Bytes => CnV_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    CnV_Encode_aux(val, Stream, result);
end CnV_Encode;

procedure CnV_Decode_aux(val: out CnV; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := CnV_Init;

    result.ErrorCode := ERR_UPER_DECODE_CNV;
    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.c, result.Success);
    if result.Success then
        --Decode p
        result.ErrorCode := ERR_UPER_DECODE_CNV_P;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.p, 0, 7, 3, result.Success);
        if result.Success then
            --Decode c
            if val.Exist.c = 1 then
            	--open new scope to declare some variables
            	declare
            	    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(OctBig_REQUIRED_BYTES_FOR_ENCODING);
            		data_length : Integer;
            	begin
            		--decode to a temporary bitstream
            		adaasn1rtl.encoding.uper.BitStream_DecodeOctetString(bs, tmpBs.Buffer, data_length, 9, 2, 302, result.success);
            		if result.success then
            			OctBig_Decode_aux(val.c, tmpBs, result);
            		end if;
            	end;
            end if;
            if result.Success then
                --Decode d
                --open new scope to declare some variables
                declare
                    tmpBs : adaasn1rtl.encoding.Bitstream := adaasn1rtl.encoding.BitStream_init(Chc_REQUIRED_BYTES_FOR_ENCODING);
                	data_length : Integer;
                begin
                	--decode to a temporary bitstream
                	adaasn1rtl.encoding.uper.BitStream_DecodeBitString(bs, tmpBs.Buffer, data_length, 9, 3, 329, result.success);
                	if result.success then
                		Chc_Decode_aux(val.d, tmpBs, result);
                	end if;
                end;
            end if;
        end if;
    end if;
end CnV_Decode_aux;
procedure CnV_Decode(val:out CnV; Stream : IN OUT CnV_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    CnV_Decode_aux(val, Stream, result);
    if result.success then
        result := CnV_IsConstraintValid(val);
    end if;

end CnV_Decode;



function SoInt_elem_Equal (val1, val2 :  SoInt_elem) return Boolean
is

begin
	return val1 = val2;

end SoInt_elem_Equal;

function SoInt_Equal (val1, val2 :  SoInt) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := SoInt_elem_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end SoInt_Equal;

function SoInt_elem_IsConstraintValid(val : SoInt_elem) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 1000);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SOINT_ELM);
    return ret;
end SoInt_elem_IsConstraintValid;

function SoInt_IsConstraintValid(val : SoInt) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 12);
    ret.ErrorCode := (if ret.Success then 0 else ERR_SOINT);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := SoInt_elem_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end SoInt_IsConstraintValid;




procedure SoInt_Encode_aux(val : SoInt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    result := SoInt_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 12;
        result.errorCode := ERR_UPER_ENCODE_SOINT;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 4);
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 10*(i1-1));
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.Data(i1), 0, 10);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end SoInt_Encode_aux;

procedure SoInt_Encode(val : SoInt; Stream : out SoInt_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := SoInt_uPER_Stream'(Size_In_Bytes => SoInt_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    SoInt_Encode_aux(val, Stream, result);
end SoInt_Encode;

procedure SoInt_Decode_aux(val: out SoInt; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nStringLength:Integer;
begin
    -- val := SoInt_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 12, 4, result.Success);
    result.errorCode := ERR_UPER_DECODE_SOINT;
    i1 := 1;
    val.Length := nStringLength;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 10*(i1-1));
        result.ErrorCode := ERR_UPER_DECODE_SOINT_ELM;
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.Data(i1), 0, 1000, 10, result.Success);
        i1 := i1 + 1;
    end loop;
end SoInt_Decode_aux;
procedure SoInt_Decode(val:out SoInt; Stream : IN OUT SoInt_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    SoInt_Decode_aux(val, Stream, result);
    if result.success then
        result := SoInt_IsConstraintValid(val);
    end if;

end SoInt_Decode;



function SoSo_Equal (val1, val2 :  SoSo) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := SoInt_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end SoSo_Equal;

function SoSo_IsConstraintValid(val : SoSo) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 3));
    ret.ErrorCode := (if ret.Success then 0 else ERR_SOSO);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := SoInt_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end SoSo_IsConstraintValid;



procedure SoSo_Encode_aux(val : SoSo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    result := SoSo_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 1 AND val.Length <= 3;
        result.errorCode := ERR_UPER_ENCODE_SOSO;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 1, 2);
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 124*(i1-1));
                SoInt_Encode_aux(val.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end SoSo_Encode_aux;

procedure SoSo_Encode(val : SoSo; Stream : out SoSo_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := SoSo_uPER_Stream'(Size_In_Bytes => SoSo_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    SoSo_Encode_aux(val, Stream, result);
end SoSo_Encode;

procedure SoSo_Decode_aux(val: out SoSo; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nStringLength:Integer;
begin
    -- val := SoSo_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 1, 3, 2, result.Success);
    result.errorCode := ERR_UPER_DECODE_SOSO;
    i1 := 1;
    val.Length := nStringLength;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 124*(i1-1));
        SoInt_Decode_aux(val.Data(i1), bs, result);
        i1 := i1 + 1;
    end loop;
end SoSo_Decode_aux;
procedure SoSo_Decode(val:out SoSo; Stream : IN OUT SoSo_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    SoSo_Decode_aux(val, Stream, result);
    if result.success then
        result := SoSo_IsConstraintValid(val);
    end if;

end SoSo_Decode;



function Rec_Equal (val1, val2 :  Rec) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.f_b = val2.f_b);

    if ret then
        ret := (val1.f_i1 = val2.f_i1);

        if ret then
            ret := val1.Exist.f_big = val2.Exist.f_big;
            if ret and then val1.Exist.f_big = 1 then
                ret := (val1.f_big = val2.f_big);
            end if;

            if ret then
                ret := (val1.f_semi = val2.f_semi);

                if ret then
                    ret := val1.Exist.f_col = val2.Exist.f_col;
                    if ret and then val1.Exist.f_col = 1 then
                        ret := (val1.f_col = val2.f_col);
                    end if;

                    if ret then
                        ret := OctF_Equal(val1.f_ofx, val2.f_ofx);

                        if ret then
                            ret := OctV_Equal(val1.f_ov, val2.f_ov);

                            if ret then
                                ret := val1.Exist.f_bf = val2.Exist.f_bf;
                                if ret and then val1.Exist.f_bf = 1 then
                                    ret := BitF_Equal(val1.f_bf, val2.f_bf);
                                end if;

                                if ret then
                                    ret := BitV_Equal(val1.f_bv, val2.f_bv);

                                    if ret then
                                        ret := (val1.f_s = val2.f_s);

                                        if ret then
                                            ret := (val1.f_sa = val2.f_sa);

                                            if ret then
                                                ret := Chc_Equal(val1.f_ch, val2.f_ch);

                                                if ret then
                                                    ret := SoInt_Equal(val1.f_so, val2.f_so);

                                                    if ret then
                                                        ret := (adaasn1rtl.Asn1Real_Equal(val1.f_r, val2.f_r));

                                                        if ret then
                                                            ret := val1.Exist.f_sn = val2.Exist.f_sn;
                                                            if ret and then val1.Exist.f_sn = 1 then
                                                                ret := (val1.f_sn = val2.f_sn);
                                                            end if;

                                                            if ret then
                                                                ret := val1.Exist.f_u24 = val2.Exist.f_u24;
                                                                if ret and then val1.Exist.f_u24 = 1 then
                                                                    ret := (val1.f_u24 = val2.f_u24);
                                                                end if;

                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end Rec_Equal;

function Rec_IsConstraintValid(val : Rec) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Flg_IsConstraintValid(val.f_b);
    if ret.Success then
        ret := I5_IsConstraintValid(val.f_i1);
        if ret.Success then
            if val.Exist.f_big = 1 then
                ret := Big_IsConstraintValid(val.f_big);
            end if;
            if ret.Success then
                ret := Semi_IsConstraintValid(val.f_semi);
                if ret.Success then
                    if val.Exist.f_col = 1 then
                        ret := Col_IsConstraintValid(val.f_col);
                    end if;
                    if ret.Success then
                        ret := OctF_IsConstraintValid(val.f_ofx);
                        if ret.Success then
                            ret := OctV_IsConstraintValid(val.f_ov);
                            if ret.Success then
                                if val.Exist.f_bf = 1 then
                                    ret := BitF_IsConstraintValid(val.f_bf);
                                end if;
                                if ret.Success then
                                    ret := BitV_IsConstraintValid(val.f_bv);
                                    if ret.Success then
                                        ret := StrV_IsConstraintValid(val.f_s);
                                        if ret.Success then
                                            ret := StrA_IsConstraintValid(val.f_sa);
                                            if ret.Success then
                                                ret := Chc_IsConstraintValid(val.f_ch);
                                                if ret.Success then
                                                    ret := SoInt_IsConstraintValid(val.f_so);
                                                    if ret.Success then
                                                        ret := Rl_IsConstraintValid(val.f_r);
                                                        if ret.Success then
                                                            if val.Exist.f_sn = 1 then
                                                                ret := StrN_IsConstraintValid(val.f_sn);
                                                            end if;
                                                            if ret.Success then
                                                                if val.Exist.f_u24 = 1 then
                                                                    ret := U24_IsConstraintValid(val.f_u24);
                                                                end if;
                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end Rec_IsConstraintValid;



procedure Rec_Encode_aux(val : Rec; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Rec_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.f_big);
        if result.Success then
            adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.f_col);
            if result.Success then
                adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.f_bf);
                if result.Success then
                    adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.f_sn);
                    if result.Success then
                        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.f_u24);
                        if result.Success then
                            --Encode f_b
                            Flg_Encode_aux(val.f_b, bs, result);
                            if result.Success then
                                --Encode f_i1
                                I5_Encode_aux(val.f_i1, bs, result);
                                if result.Success then
                                    --Encode f_big
                                    if val.Exist.f_big = 1 then
                                    	Big_Encode_aux(val.f_big, bs, result);
                                    end if;
                                    if result.Success then
                                        --Encode f_semi
                                        Semi_Encode_aux(val.f_semi, bs, result);
                                        if result.Success then
                                            --Encode f_col
                                            if val.Exist.f_col = 1 then
                                            	Col_Encode_aux(val.f_col, bs, result);
                                            end if;
                                            if result.Success then
                                                --Encode f_ofx
                                                OctF_Encode_aux(val.f_ofx, bs, result);
                                                if result.Success then
                                                    --Encode f_ov
                                                    OctV_Encode_aux(val.f_ov, bs, result);
                                                    if result.Success then
                                                        --Encode f_bf
                                                        if val.Exist.f_bf = 1 then
                                                        	BitF_Encode_aux(val.f_bf, bs, result);
                                                        end if;
                                                        if result.Success then
                                                            --Encode f_bv
                                                            BitV_Encode_aux(val.f_bv, bs, result);
                                                            if result.Success then
                                                                --Encode f_s
                                                                StrV_Encode_aux(val.f_s, bs, result);
                                                                if result.Success then
                                                                    --Encode f_sa
                                                                    StrA_Encode_aux(val.f_sa, bs, result);
                                                                    if result.Success then
                                                                        --Encode f_ch
                                                                        Chc_Encode_aux(val.f_ch, bs, result);
                                                                        if result.Success then
                                                                            --Encode f_so
                                                                            SoInt_Encode_aux(val.f_so, bs, result);
                                                                            if result.Success then
                                                                                --Encode f_r
                                                                                Rl_Encode_aux(val.f_r, bs, result);
                                                                                if result.Success then
                                                                                    --Encode f_sn
                                                                                    if val.Exist.f_sn = 1 then
                                                                                    	StrN_Encode_aux(val.f_sn, bs, result);
                                                                                    end if;
                                                                                    if result.Success then
                                                                                        --Encode f_u24
                                                                                        if val.Exist.f_u24 = 1 then
                                                                                        	U24_Encode_aux(val.f_u24, bs, result);
                                                                                        end if;
                                                                                    end if;
                                                                                end if;
                                                                            end if;
                                                                        end if;
                                                                    end if;
                                                                end if;
                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;

end Rec_Encode_aux;

procedure Rec_Encode(val : Rec; Stream : out Rec_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Rec_uPER_Stream'(Size_In_Bytes => Rec_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Rec_Encode_aux(val, Stream, result);
end Rec_Encode;

procedure Rec_Decode_aux(val: out Rec; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Rec_Init;

    result.ErrorCode := ERR_UPER_DECODE_REC;
    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.f_big, result.Success);
    if result.Success then
        result.ErrorCode := ERR_UPER_DECODE_REC;
        adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.f_col, result.Success);
        if result.Success then
            result.ErrorCode := ERR_UPER_DECODE_REC;
            adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.f_bf, result.Success);
            if result.Success then
                result.ErrorCode := ERR_UPER_DECODE_REC;
                adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.f_sn, result.Success);
                if result.Success then
                    result.ErrorCode := ERR_UPER_DECODE_REC;
                    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.f_u24, result.Success);
                    if result.Success then
                        --Decode f_b
                        Flg_Decode_aux(val.f_b, bs, result);
                        if result.Success then
                            --Decode f_i1
                            I5_Decode_aux(val.f_i1, bs, result);
                            if result.Success then
                                --Decode f_big
                                if val.Exist.f_big = 1 then
                                	Big_Decode_aux(val.f_big, bs, result);
                                end if;
                                if result.Success then
                                    --Decode f_semi
                                    Semi_Decode_aux(val.f_semi, bs, result);
                                    if result.Success then
                                        --Decode f_col
                                        if val.Exist.f_col = 1 then
                                        	Col_Decode_aux(val.f_col, bs, result);
                                        else
                                            val.f_col := green;
                                        end if;
                                        if result.Success then
                                            --Decode f_ofx
                                            OctF_Decode_aux(val.f_ofx, bs, result);
                                            if result.Success then
                                                --Decode f_ov
                                                OctV_Decode_aux(val.f_ov, bs, result);
                                                if result.Success then
                                                    --Decode f_bf
                                                    if val.Exist.f_bf = 1 then
                                                    	BitF_Decode_aux(val.f_bf, bs, result);
                                                    end if;
                                                    if result.Success then
                                                        --Decode f_bv
                                                        BitV_Decode_aux(val.f_bv, bs, result);
                                                        if result.Success then
                                                            --Decode f_s
                                                            StrV_Decode_aux(val.f_s, bs, result);
                                                            if result.Success then
                                                                --Decode f_sa
                                                                StrA_Decode_aux(val.f_sa, bs, result);
                                                                if result.Success then
                                                                    --Decode f_ch
                                                                    Chc_Decode_aux(val.f_ch, bs, result);
                                                                    if result.Success then
                                                                        --Decode f_so
                                                                        SoInt_Decode_aux(val.f_so, bs, result);
                                                                        if result.Success then
                                                                            --Decode f_r
                                                                            Rl_Decode_aux(val.f_r, bs, result);
                                                                            if result.Success then
                                                                                --Decode f_sn
                                                                                if val.Exist.f_sn = 1 then
                                                                                	StrN_Decode_aux(val.f_sn, bs, result);
                                                                                end if;
                                                                                if result.Success then
                                                                                    --Decode f_u24
                                                                                    if val.Exist.f_u24 = 1 then
                                                                                    	U24_Decode_aux(val.f_u24, bs, result);
                                                                                    else
                                                                                        val.f_u24 := 77;
                                                                                    end if;
                                                                                end if;
                                                                            end if;
                                                                        end if;
                                                                    end if;
                                                                end if;
                                                            end if;
                                                        end if;
                                                    end if;
                                                end if;
                                            end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Rec_Decode_aux;
procedure Rec_Decode(val:out Rec; Stream : IN OUT Rec_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Rec_Decode_aux(val, Stream, result);
    if result.success then
        result := Rec_IsConstraintValid(val);
    end if;

end Rec_Decode;



function Log_Equal (val1, val2 :  Log) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := Rec_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end Log_Equal;

function Log_IsConstraintValid(val : Log) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := (val.Length <= 4);
    ret.ErrorCode := (if ret.Success then 0 else ERR_LOG);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := Rec_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end Log_IsConstraintValid;



procedure Log_Encode_aux(val : Log; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    result := Log_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        result.Success := val.Length >= 0 AND val.Length <= 4;
        result.errorCode := ERR_UPER_ENCODE_LOG;
        i1 := 1;
        if result.Success then
            adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(val.Length), 0, 3);
            while i1<= val.Length loop
                pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
                pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
                pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 1399*(i1-1));
                Rec_Encode_aux(val.Data(i1), bs, result);
                i1 := i1 + 1;
            end loop;
        end if;
    end if;

end Log_Encode_aux;

procedure Log_Encode(val : Log; Stream : out Log_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Log_uPER_Stream'(Size_In_Bytes => Log_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Log_Encode_aux(val, Stream, result);
end Log_Encode;

procedure Log_Decode_aux(val: out Log; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nStringLength:Integer;
begin
    -- val := Log_Init;

    adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nStringLength, 0, 4, 3, result.Success);
    result.errorCode := ERR_UPER_DECODE_LOG;
    i1 := 1;
    val.Length := nStringLength;
    while i1<= val.Length AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=val.Length);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 1399*(i1-1));
        Rec_Decode_aux(val.Data(i1), bs, result);
        i1 := i1 + 1;
    end loop;
end Log_Decode_aux;
procedure Log_Decode(val:out Log; Stream : IN OUT Log_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Log_Decode_aux(val, Stream, result);
    if result.success then
        result := Log_IsConstraintValid(val);
    end if;

end Log_Decode;



function SoFix_Equal (val1, val2 :  SoFix) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    i1 := val1.Data'First;
    while ret and i1 <= 9 loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First);
        ret := (val1.Data(i1) = val2.Data(i1));
        i1 := i1+1;
    end loop;
	return ret;

end SoFix_Equal;

function SoFix_IsConstraintValid(val : SoFix) return adaasn1rtl.ASN1_RESULT
is
    pragma Unreferenced (val);
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    return ret;
end SoFix_IsConstraintValid;



procedure SoFix_Encode_aux(val : SoFix; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    result := SoFix_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        i1 := 1;
        while i1<= 9 loop
            pragma Loop_Invariant (i1 >=1 and i1<=9);
            pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
            pragma Loop_Invariant (bs.Current_Bit_Pos<=bs.Current_Bit_Pos'Loop_Entry + 1*(i1-1));
            adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.Data(i1));
            i1 := i1 + 1;
        end loop;
    end if;

end SoFix_Encode_aux;

procedure SoFix_Encode(val : SoFix; Stream : out SoFix_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := SoFix_uPER_Stream'(Size_In_Bytes => SoFix_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    SoFix_Encode_aux(val, Stream, result);
end SoFix_Encode;

procedure SoFix_Decode_aux(val: out SoFix; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
begin
    -- val := SoFix_Init;

    result := adaasn1rtl.ASN1_RESULT'(Success => True, ErrorCode => 0);
    i1 := 1;
    while i1<= 9 AND result.Success loop
        pragma Loop_Invariant (i1 >=1 and i1<=9);
        pragma Loop_Invariant (bs.Current_Bit_Pos >= bs.Current_Bit_Pos'Loop_Entry);
        pragma Loop_Invariant (bs.Current_Bit_Pos <= bs.Current_Bit_Pos'Loop_Entry + 1*(i1-1));
        result.ErrorCode := ERR_UPER_DECODE_SOFIX_ELM;
        adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.Data(i1), result.Success);
        i1 := i1 + 1;
    end loop;
end SoFix_Decode_aux;
procedure SoFix_Decode(val:out SoFix; Stream : IN OUT SoFix_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    SoFix_Decode_aux(val, Stream, result);
    if result.success then
        result := SoFix_IsConstraintValid(val);
    end if;

end SoFix_Decode;



function Mix_m_f_k_b_Equal (val1, val2 :  Mix_m_f_k_b) return Boolean
is

begin
	return val1 = val2;

end Mix_m_f_k_b_Equal;

function Mix_m_f_Equal (val1, val2 :  Mix_m_f) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.k_a = val2.k_a);

    if ret then
        ret := val1.Exist.k_b = val2.Exist.k_b;
        if ret and then val1.Exist.k_b = 1 then
            ret := Mix_m_f_k_b_Equal(val1.k_b, val2.k_b);
        end if;

    end if;
	return ret;

end Mix_m_f_Equal;

function Mix_Equal (val1, val2 :  Mix) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := Chc2_Equal(val1.m_a, val2.m_a);

    if ret then
        ret := SoSo_Equal(val1.m_b, val2.m_b);

        if ret then
            ret := SoFix_Equal(val1.m_c, val2.m_c);

            if ret then
                ret := val1.Exist.m_d = val2.Exist.m_d;
                if ret and then val1.Exist.m_d = 1 then
                    ret := OctBig_Equal(val1.m_d, val2.m_d);
                end if;

                if ret then
                    ret := BitB_Equal(val1.m_e, val2.m_e);

                    if ret then
                        ret := SoJmb_Equal(val1.m_g, val2.m_g);

                        if ret then
                            ret := val1.Exist.m_f = val2.Exist.m_f;
                            if ret and then val1.Exist.m_f = 1 then
                                ret := Mix_m_f_Equal(val1.m_f, val2.m_f);
                            end if;

                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
	return ret;

end Mix_Equal;

function Mix_m_f_k_b_IsConstraintValid(val : Mix_m_f_k_b) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 70);
    ret.ErrorCode := (if ret.Success then 0 else ERR_MIX_M_F_K_B);
    return ret;
end Mix_m_f_k_b_IsConstraintValid;

function Mix_m_f_IsConstraintValid(val : Mix_m_f) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    if val.Exist.k_b = 1 then
        ret := Mix_m_f_k_b_IsConstraintValid(val.k_b);
    end if;
    return ret;
end Mix_m_f_IsConstraintValid;

function Mix_IsConstraintValid(val : Mix) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := Chc2_IsConstraintValid(val.m_a);
    if ret.Success then
        ret := SoSo_IsConstraintValid(val.m_b);
        if ret.Success then
            ret := SoFix_IsConstraintValid(val.m_c);
            if ret.Success then
                if val.Exist.m_d = 1 then
                    ret := OctBig_IsConstraintValid(val.m_d);
                end if;
                if ret.Success then
                    ret := BitB_IsConstraintValid(val.m_e);
                    if ret.Success then
                        ret := SoJmb_IsConstraintValid(val.m_g);
                        if ret.Success then
                            if val.Exist.m_f = 1 then
                                ret := Mix_m_f_IsConstraintValid(val.m_f);
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
    return ret;
end Mix_IsConstraintValid;





procedure Mix_Encode_aux(val : Mix; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    result := Mix_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.m_d);
        if result.Success then
            adaasn1rtl.encoding.BitStream_AppendBit(bs,val.Exist.m_f);
            if result.Success then
                --Encode m_a
                Chc2_Encode_aux(val.m_a, bs, result);
                if result.Success then
                    --Encode m_b
                    SoSo_Encode_aux(val.m_b, bs, result);
                    if result.Success then
                        --Encode m_c
                        SoFix_Encode_aux(val.m_c, bs, result);
                        if result.Success then
                            --Encode m_d
                            if val.Exist.m_d = 1 then
                            	OctBig_Encode_aux(val.m_d, bs, result);
                            end if;
                            if result.Success then
                                --Encode m_e
                                BitB_Encode_aux(val.m_e, bs, result);
                                if result.Success then
                                    --Encode m_g
                                    SoJmb_Encode_aux(val.m_g, bs, result);
                                    if result.Success then
                                        --Encode m_f
                                        if val.Exist.m_f = 1 then
                                        	adaasn1rtl.encoding.BitStream_AppendBit(bs,val.m_f.Exist.k_b);
                                        	if result.Success then
                                        	    --Encode k_a
                                        	    adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.m_f.k_a);
                                        	    if result.Success then
                                        	        --Encode k_b
                                        	        if val.m_f.Exist.k_b = 1 then
                                        	        	adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.m_f.k_b, 0, 7);
                                        	        end if;
                                        	    end if;
                                        	end if;
                                        end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;

end Mix_Encode_aux;

procedure Mix_Encode(val : Mix; Stream : out Mix_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := Mix_uPER_Stream'(Size_In_Bytes => Mix_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    Mix_Encode_aux(val, Stream, result);
end Mix_Encode;

procedure Mix_Decode_aux(val: out Mix; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

begin
    -- val := Mix_Init;

    result.ErrorCode := ERR_UPER_DECODE_MIX;
    adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.m_d, result.Success);
    if result.Success then
        result.ErrorCode := ERR_UPER_DECODE_MIX;
        adaasn1rtl.encoding.BitStream_ReadBit(bs,val.Exist.m_f, result.Success);
        if result.Success then
            --Decode m_a
            Chc2_Decode_aux(val.m_a, bs, result);
            if result.Success then
                --Decode m_b
                SoSo_Decode_aux(val.m_b, bs, result);
                if result.Success then
                    --Decode m_c
                    SoFix_Decode_aux(val.m_c, bs, result);
                    if result.Success then
                        --Decode m_d
                        if val.Exist.m_d = 1 then
                        	OctBig_Decode_aux(val.m_d, bs, result);
                        end if;
                        if result.Success then
                            --Decode m_e
                            BitB_Decode_aux(val.m_e, bs, result);
                            if result.Success then
                                --Decode m_g
                                SoJmb_Decode_aux(val.m_g, bs, result);
                                if result.Success then
                                    --Decode m_f
                                    if val.Exist.m_f = 1 then
                                    	result.ErrorCode := ERR_UPER_DECODE_MIX_M_F;
                                    	adaasn1rtl.encoding.BitStream_ReadBit(bs,val.m_f.Exist.k_b, result.Success);
                                    	if result.Success then
                                    	    --Decode k_a
                                    	    result.ErrorCode := ERR_UPER_DECODE_MIX_M_F_K_A;
                                    	    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.m_f.k_a, result.Success);
                                    	    if result.Success then
                                    	        --Decode k_b
                                    	        if val.m_f.Exist.k_b = 1 then
                                    	        	result.ErrorCode := ERR_UPER_DECODE_MIX_M_F_K_B;
                                    	        	adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.m_f.k_b, 0, 70, 7, result.Success);
                                    	        end if;
                                    	    end if;
                                    	end if;
                                    end if;
                                end if;
                            end if;
                        end if;
                    end if;
                end if;
            end if;
        end if;
    end if;
end Mix_Decode_aux;
procedure Mix_Decode(val:out Mix; Stream : IN OUT Mix_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    Mix_Decode_aux(val, Stream, result);
    if result.success then
        result := Mix_IsConstraintValid(val);
    end if;

end Mix_Decode;



function FragO_g_o_Equal (val1, val2 :  FragO_g_o) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end FragO_g_o_Equal;

function FragO_g_z_Equal (val1, val2 :  FragO_g_z) return Boolean
is

begin
	return val1 = val2;

end FragO_g_z_Equal;

function FragO_Equal (val1, val2 :  FragO) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.g_x = val2.g_x);

    if ret then
        ret := FragO_g_o_Equal(val1.g_o, val2.g_o);

        if ret then
            ret := FragO_g_z_Equal(val1.g_z, val2.g_z);

        end if;
    end if;
	return ret;

end FragO_Equal;

function FragO_g_o_IsConstraintValid(val : FragO_g_o) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 70000));
    ret.ErrorCode := (if ret.Success then 0 else ERR_FRAGO_G_O);
    return ret;
end FragO_g_o_IsConstraintValid;

function FragO_g_z_IsConstraintValid(val : FragO_g_z) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_FRAGO_G_Z);
    return ret;
end FragO_g_z_IsConstraintValid;

function FragO_IsConstraintValid(val : FragO) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := FragO_g_o_IsConstraintValid(val.g_o);
    if ret.Success then
        ret := FragO_g_z_IsConstraintValid(val.g_z);
    end if;
    return ret;
end FragO_IsConstraintValid;





procedure FragO_Encode_aux(val : FragO; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nBlockIndex1:Integer;
    nBLJ1:Integer;
    nRemainingItemsVar1:Integer;
    nCurBlockSize1:Integer;
    nCurOffset1:Integer;
begin
    result := FragO_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        --Encode g_x
        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.g_x);
        if result.Success then
            --Encode g_o
            nCurOffset1 := 1;
            nRemainingItemsVar1 := val.g_o.Length;
            nBlockIndex1:=1;
            while nRemainingItemsVar1 >= 16#4000# and nBlockIndex1 < val.g_o.Length loop
                if nRemainingItemsVar1 >= 16#10000# then
                    nCurBlockSize1 := 16#10000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C4#, 0, 8);
                elsif nRemainingItemsVar1 >= 16#C000# then
                    nCurBlockSize1 := 16#C000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C3#, 0, 8);
                elsif nRemainingItemsVar1 >= 16#8000# then
                    nCurBlockSize1 := 16#8000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C2#, 0, 8);
                else
                    nCurBlockSize1 := 16#4000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C1#, 0, 8);
                end if;

                -- set1

            	nBLJ1 := 0;
            	while nBLJ1 <= nCurBlockSize1-1 loop
            		i1 := nCurOffset1 + nBLJ1;
                    -- set2
            		adaasn1rtl.encoding.BitStream_AppendByte(bs, val.g_o.Data(i1), FALSE);
            		nBLJ1 := nBLJ1 + 1;
            	end loop;
                nCurOffset1 := nCurOffset1 + nCurBlockSize1;
                nRemainingItemsVar1 := nRemainingItemsVar1 - nCurBlockSize1;

                nBlockIndex1:=nBlockIndex1+1;
            end loop;

            if nRemainingItemsVar1 <= 16#7F# then
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nRemainingItemsVar1), 0, 8);
            else
                adaasn1rtl.encoding.BitStream_AppendBit(bs, 1);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nRemainingItemsVar1), 0, 15);
            end if;

            nBLJ1 := 0;
            nCurBlockSize1 := nRemainingItemsVar1;
            while nBLJ1 <= nCurBlockSize1-1 loop
            	i1 := nCurOffset1 + nBLJ1;
                --set3
            	adaasn1rtl.encoding.BitStream_AppendByte(bs, val.g_o.Data(i1), FALSE);
            	nBLJ1 := nBLJ1 + 1;
            end loop;

            if result.Success then
                --Encode g_z
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.g_z, 0, 3);
            end if;
        end if;
    end if;

end FragO_Encode_aux;

procedure FragO_Encode(val : FragO; Stream : out FragO_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := FragO_uPER_Stream'(Size_In_Bytes => FragO_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    FragO_Encode_aux(val, Stream, result);
end FragO_Encode;

procedure FragO_Decode_aux(val: out FragO; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nLengthTmp1:Integer;
    nRemainingItemsVar1:Integer;
    nCurBlockSize1:Integer;
    nCurOffset1:Integer;
begin
    -- val := FragO_Init;

    --Decode g_x
    result.ErrorCode := ERR_UPER_DECODE_FRAGO_G_X;
    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.g_x, result.Success);
    if result.Success then
        --Decode g_o
        nLengthTmp1 := 0;
        nCurBlockSize1 := 0;
        result.ErrorCode := ERR_UPER_DECODE_FRAGO_G_O;
        -- decode blockSize
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nRemainingItemsVar1, 0, 255, 8, result.Success);
        nCurOffset1 := 1;

        while result.Success AND (nRemainingItemsVar1 = 16#C4# OR nRemainingItemsVar1 = 16#C3# OR nRemainingItemsVar1 = 16#C2# OR nRemainingItemsVar1 = 16#C1#)  loop
            --# assert i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1 ;
            if nRemainingItemsVar1 = 16#C4# then
                nCurBlockSize1 := 16#10000#;
            elsif nRemainingItemsVar1 = 16#C3# then
                nCurBlockSize1 := 16#C000#;
            elsif nRemainingItemsVar1 = 16#C2# then
                nCurBlockSize1 := 16#8000#;
            else
                nCurBlockSize1 := 16#4000#;
            end if;

            result.Success := nCurOffset1 + nCurBlockSize1 - 1 <= 70000;
            i1 := nCurOffset1;
            while i1<= nCurOffset1 + nCurBlockSize1 - 1 AND result.Success loop
            --# assert  i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1  and
            --#        K.K>=K~.K and K.K<=K~.K+8+ 8*(i1-1);
                adaasn1rtl.encoding.BitStream_DecodeByte(bs, val.g_o.Data(i1), result.Success);
                if not result.Success then
                    result.errorcode := ERR_UPER_DECODE_FRAGO_G_O; -- COVERAGE_IGNORE
                end if;
                i1 := i1 + 1;
            end loop;
            nLengthTmp1 := nLengthTmp1 + nCurBlockSize1;
            nCurOffset1 := nCurOffset1 + nCurBlockSize1;
            exit when not result.Success;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nRemainingItemsVar1, 0, 255, 8, result.Success);
        end loop;

        if result.Success and nRemainingItemsVar1 >= 16#80# then
            declare
                len2:Integer;
            begin
                nRemainingItemsVar1 := (nRemainingItemsVar1 - 16#80#) * 16#100#;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, len2, 0, 255, 8, result.Success);
                if result.Success then
                     nRemainingItemsVar1 := nRemainingItemsVar1 + len2;
                end if;
            end;
        end if;

        result.Success := result.Success and then nCurOffset1 + nRemainingItemsVar1 -1 <= 70000;
        if result.Success then
            i1 := nCurOffset1;
            while i1<= nCurOffset1 + nRemainingItemsVar1 -1 AND result.Success loop
            --# assert  i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1  and
            --#        K.K>=K~.K and K.K<=K~.K+8+ 8*(i1-1);
                adaasn1rtl.encoding.BitStream_DecodeByte(bs, val.g_o.Data(i1), result.Success);
                if not result.Success then
                    result.errorcode := ERR_UPER_DECODE_FRAGO_G_O; -- COVERAGE_IGNORE
                end if;
                i1 := i1 + 1;
            end loop;
            nLengthTmp1 := nLengthTmp1 + nRemainingItemsVar1;
        end if;


        if result.Success and nLengthTmp1 >= 1 and nLengthTmp1 <= 70000 then
            val.g_o.Length := nLengthTmp1;

        else
            result.Success := false;	--COVERAGE_IGNORE
        end if;

        if result.Success then
            --Decode g_z
            result.ErrorCode := ERR_UPER_DECODE_FRAGO_G_Z;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.g_z, 0, 7, 3, result.Success);
        end if;
    end if;
end FragO_Decode_aux;
procedure FragO_Decode(val:out FragO; Stream : IN OUT FragO_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    FragO_Decode_aux(val, Stream, result);
    if result.success then
        result := FragO_IsConstraintValid(val);
    end if;

end FragO_Decode;



function FragB_h_o_Equal (val1, val2 :  FragB_h_o) return Boolean
is

begin
	return val1.Length = val2.Length and then val1.Data(1 .. val1.Length) = val2.Data(1 .. val2.Length);

end FragB_h_o_Equal;

function FragB_h_z_Equal (val1, val2 :  FragB_h_z) return Boolean
is

begin
	return val1 = val2;

end FragB_h_z_Equal;

function FragB_Equal (val1, val2 :  FragB) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.h_x = val2.h_x);

    if ret then
        ret := FragB_h_o_Equal(val1.h_o, val2.h_o);

        if ret then
            ret := FragB_h_z_Equal(val1.h_z, val2.h_z);

        end if;
    end if;
	return ret;

end FragB_Equal;

function FragB_h_o_IsConstraintValid(val : FragB_h_o) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 140000));
    ret.ErrorCode := (if ret.Success then 0 else ERR_FRAGB_H_O);
    return ret;
end FragB_h_o_IsConstraintValid;

function FragB_h_z_IsConstraintValid(val : FragB_h_z) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_FRAGB_H_Z);
    return ret;
end FragB_h_z_IsConstraintValid;

function FragB_IsConstraintValid(val : FragB) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := FragB_h_o_IsConstraintValid(val.h_o);
    if ret.Success then
        ret := FragB_h_z_IsConstraintValid(val.h_z);
    end if;
    return ret;
end FragB_IsConstraintValid;





procedure FragB_Encode_aux(val : FragB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nBlockIndex1:Integer;
    nBLJ1:Integer;
    nRemainingItemsVar1:Integer;
    nCurBlockSize1:Integer;
    nCurOffset1:Integer;
begin
    result := FragB_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        --Encode h_x
        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.h_x);
        if result.Success then
            --Encode h_o
            nCurOffset1 := 1;
            nRemainingItemsVar1 := val.h_o.Length;
            nBlockIndex1:=1;
            while nRemainingItemsVar1 >= 16#4000# and nBlockIndex1 < val.h_o.Length loop
                if nRemainingItemsVar1 >= 16#10000# then
                    nCurBlockSize1 := 16#10000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C4#, 0, 8);
                elsif nRemainingItemsVar1 >= 16#C000# then
                    nCurBlockSize1 := 16#C000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C3#, 0, 8);
                elsif nRemainingItemsVar1 >= 16#8000# then
                    nCurBlockSize1 := 16#8000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C2#, 0, 8);
                else
                    nCurBlockSize1 := 16#4000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C1#, 0, 8);
                end if;

                -- set1

            	nBLJ1 := 0;
            	while nBLJ1 <= nCurBlockSize1-1 loop
            		i1 := nCurOffset1 + nBLJ1;
                    -- set2
            		adaasn1rtl.encoding.BitStream_AppendBit(bs, val.h_o.Data(i1));
            		nBLJ1 := nBLJ1 + 1;
            	end loop;
                nCurOffset1 := nCurOffset1 + nCurBlockSize1;
                nRemainingItemsVar1 := nRemainingItemsVar1 - nCurBlockSize1;

                nBlockIndex1:=nBlockIndex1+1;
            end loop;

            if nRemainingItemsVar1 <= 16#7F# then
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nRemainingItemsVar1), 0, 8);
            else
                adaasn1rtl.encoding.BitStream_AppendBit(bs, 1);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nRemainingItemsVar1), 0, 15);
            end if;

            nBLJ1 := 0;
            nCurBlockSize1 := nRemainingItemsVar1;
            while nBLJ1 <= nCurBlockSize1-1 loop
            	i1 := nCurOffset1 + nBLJ1;
                --set3
            	adaasn1rtl.encoding.BitStream_AppendBit(bs, val.h_o.Data(i1));
            	nBLJ1 := nBLJ1 + 1;
            end loop;

            if result.Success then
                --Encode h_z
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.h_z, 0, 3);
            end if;
        end if;
    end if;

end FragB_Encode_aux;

procedure FragB_Encode(val : FragB; Stream : out FragB_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := FragB_uPER_Stream'(Size_In_Bytes => FragB_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    FragB_Encode_aux(val, Stream, result);
end FragB_Encode;

procedure FragB_Decode_aux(val: out FragB; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nLengthTmp1:Integer;
    nRemainingItemsVar1:Integer;
    nCurBlockSize1:Integer;
    nCurOffset1:Integer;
begin
    -- val := FragB_Init;

    --Decode h_x
    result.ErrorCode := ERR_UPER_DECODE_FRAGB_H_X;
    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.h_x, result.Success);
    if result.Success then
        --Decode h_o
        nLengthTmp1 := 0;
        nCurBlockSize1 := 0;
        result.ErrorCode := ERR_UPER_DECODE_FRAGB_H_O;
        -- decode blockSize
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nRemainingItemsVar1, 0, 255, 8, result.Success);
        nCurOffset1 := 1;

        while result.Success AND (nRemainingItemsVar1 = 16#C4# OR nRemainingItemsVar1 = 16#C3# OR nRemainingItemsVar1 = 16#C2# OR nRemainingItemsVar1 = 16#C1#)  loop
            --# assert i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1 ;
            if nRemainingItemsVar1 = 16#C4# then
                nCurBlockSize1 := 16#10000#;
            elsif nRemainingItemsVar1 = 16#C3# then
                nCurBlockSize1 := 16#C000#;
            elsif nRemainingItemsVar1 = 16#C2# then
                nCurBlockSize1 := 16#8000#;
            else
                nCurBlockSize1 := 16#4000#;
            end if;

            result.Success := nCurOffset1 + nCurBlockSize1 - 1 <= 140000;
            i1 := nCurOffset1;
            while i1<= nCurOffset1 + nCurBlockSize1 - 1 AND result.Success loop
            --# assert  i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1  and
            --#        K.K>=K~.K and K.K<=K~.K+8+ 1*(i1-1);
                adaasn1rtl.encoding.BitStream_ReadBit(bs, val.h_o.Data(i1), result.Success);
                if not result.Success then
                    result.errorcode := ERR_UPER_DECODE_FRAGB_H_O;		-- COVERAGE_IGNORE
                end if;
                i1 := i1 + 1;
            end loop;
            nLengthTmp1 := nLengthTmp1 + nCurBlockSize1;
            nCurOffset1 := nCurOffset1 + nCurBlockSize1;
            exit when not result.Success;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nRemainingItemsVar1, 0, 255, 8, result.Success);
        end loop;

        if result.Success and nRemainingItemsVar1 >= 16#80# then
            declare
                len2:Integer;
            begin
                nRemainingItemsVar1 := (nRemainingItemsVar1 - 16#80#) * 16#100#;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, len2, 0, 255, 8, result.Success);
                if result.Success then
                     nRemainingItemsVar1 := nRemainingItemsVar1 + len2;
                end if;
            end;
        end if;

        result.Success := result.Success and then nCurOffset1 + nRemainingItemsVar1 -1 <= 140000;
        if result.Success then
            i1 := nCurOffset1;
            while i1<= nCurOffset1 + nRemainingItemsVar1 -1 AND result.Success loop
            --# assert  i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1  and
            --#        K.K>=K~.K and K.K<=K~.K+8+ 1*(i1-1);
                adaasn1rtl.encoding.BitStream_ReadBit(bs, val.h_o.Data(i1), result.Success);
                if not result.Success then
                    result.errorcode := ERR_UPER_DECODE_FRAGB_H_O;		-- COVERAGE_IGNORE
                end if;
                i1 := i1 + 1;
            end loop;
            nLengthTmp1 := nLengthTmp1 + nRemainingItemsVar1;
        end if;


        if result.Success and nLengthTmp1 >= 1 and nLengthTmp1 <= 140000 then
            val.h_o.Length := nLengthTmp1;

        else
            result.Success := false;	--COVERAGE_IGNORE
        end if;

        if result.Success then
            --Decode h_z
            result.ErrorCode := ERR_UPER_DECODE_FRAGB_H_Z;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.h_z, 0, 7, 3, result.Success);
        end if;
    end if;
end FragB_Decode_aux;
procedure FragB_Decode(val:out FragB; Stream : IN OUT FragB_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    FragB_Decode_aux(val, Stream, result);
    if result.success then
        result := FragB_IsConstraintValid(val);
    end if;

end FragB_Decode;



function FragQ_q_o_elem_Equal (val1, val2 :  FragQ_q_o_elem) return Boolean
is

begin
	return val1 = val2;

end FragQ_q_o_elem_Equal;

function FragQ_q_o_Equal (val1, val2 :  FragQ_q_o) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;

begin
    ret := (val1.Length = val2.Length);
    i1 := val1.Data'First;
    while ret and i1 <= val1.Length loop
        pragma Loop_Invariant (i1 >= val1.Data'First and i1 >= val2.Data'First and i1 <= val1.Length  and val1.Length = val2.Length);
        ret := FragQ_q_o_elem_Equal(val1.Data(i1), val2.Data(i1));
        i1 := i1+1;
    end loop;

	return ret;

end FragQ_q_o_Equal;

function FragQ_q_z_Equal (val1, val2 :  FragQ_q_z) return Boolean
is

begin
	return val1 = val2;

end FragQ_q_z_Equal;

function FragQ_Equal (val1, val2 :  FragQ) return Boolean
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : Boolean := True;
    pragma Warnings (On, "initialization of ""ret"" has no effect");

begin
    ret := (val1.q_x = val2.q_x);

    if ret then
        ret := FragQ_q_o_Equal(val1.q_o, val2.q_o);

        if ret then
            ret := FragQ_q_z_Equal(val1.q_z, val2.q_z);

        end if;
    end if;
	return ret;

end FragQ_Equal;

function FragQ_q_o_elem_IsConstraintValid(val : FragQ_q_o_elem) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 3);
    ret.ErrorCode := (if ret.Success then 0 else ERR_FRAGQ_Q_O_ELM);
    return ret;
end FragQ_q_o_elem_IsConstraintValid;

function FragQ_q_o_IsConstraintValid(val : FragQ_q_o) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
    i1:Integer;
begin
    ret.Success := ((1 <= val.Length) AND (val.Length <= 68000));
    ret.ErrorCode := (if ret.Success then 0 else ERR_FRAGQ_Q_O);
    if ret.Success then
        i1 := val.Data'First;
        while ret.Success and i1 <= val.Length loop
            pragma Loop_Invariant (i1 >= val.Data'First and i1 <= val.Length);
            ret := FragQ_q_o_elem_IsConstraintValid(val.Data(i1));
            i1 := i1+1;
        end loop;
    end if;
    return ret;
end FragQ_q_o_IsConstraintValid;

function FragQ_q_z_IsConstraintValid(val : FragQ_q_z) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret.Success := (val <= 7);
    ret.ErrorCode := (if ret.Success then 0 else ERR_FRAGQ_Q_Z);
    return ret;
end FragQ_q_z_IsConstraintValid;

function FragQ_IsConstraintValid(val : FragQ) return adaasn1rtl.ASN1_RESULT
is
    pragma Warnings (Off, "initialization of ""ret"" has no effect");
    ret : adaasn1rtl.ASN1_RESULT := adaasn1rtl.ASN1_RESULT'(Success => true, ErrorCode => 0);
    pragma Warnings (On, "initialization of ""ret"" has no effect");
begin
    ret := FragQ_q_o_IsConstraintValid(val.q_o);
    if ret.Success then
        ret := FragQ_q_z_IsConstraintValid(val.q_z);
    end if;
    return ret;
end FragQ_IsConstraintValid;






procedure FragQ_Encode_aux(val : FragQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nBlockIndex1:Integer;
    nBLJ1:Integer;
    nRemainingItemsVar1:Integer;
    nCurBlockSize1:Integer;
    nCurOffset1:Integer;
begin
    result := FragQ_IsConstraintValid(val);
    if result.success and  result.ErrorCode = 0 then
        --Encode q_x
        adaasn1rtl.encoding.uper.UPER_Enc_Boolean(bs, val.q_x);
        if result.Success then
            --Encode q_o
            nCurOffset1 := 1;
            nRemainingItemsVar1 := val.q_o.Length;
            nBlockIndex1:=1;
            while nRemainingItemsVar1 >= 16#4000# and nBlockIndex1 < val.q_o.Length loop
                if nRemainingItemsVar1 >= 16#10000# then
                    nCurBlockSize1 := 16#10000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C4#, 0, 8);
                elsif nRemainingItemsVar1 >= 16#C000# then
                    nCurBlockSize1 := 16#C000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C3#, 0, 8);
                elsif nRemainingItemsVar1 >= 16#8000# then
                    nCurBlockSize1 := 16#8000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C2#, 0, 8);
                else
                    nCurBlockSize1 := 16#4000#;
                    adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, 16#C1#, 0, 8);
                end if;

                -- set1

            	nBLJ1 := 0;
            	while nBLJ1 <= nCurBlockSize1-1 loop
            		i1 := nCurOffset1 + nBLJ1;
                    -- set2
            		adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.q_o.Data(i1), 0, 2);
            		nBLJ1 := nBLJ1 + 1;
            	end loop;
                nCurOffset1 := nCurOffset1 + nCurBlockSize1;
                nRemainingItemsVar1 := nRemainingItemsVar1 - nCurBlockSize1;

                nBlockIndex1:=nBlockIndex1+1;
            end loop;

            if nRemainingItemsVar1 <= 16#7F# then
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nRemainingItemsVar1), 0, 8);
            else
                adaasn1rtl.encoding.BitStream_AppendBit(bs, 1);
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintWholeNumber(bs, adaasn1rtl.Asn1Int(nRemainingItemsVar1), 0, 15);
            end if;

            nBLJ1 := 0;
            nCurBlockSize1 := nRemainingItemsVar1;
            while nBLJ1 <= nCurBlockSize1-1 loop
            	i1 := nCurOffset1 + nBLJ1;
                --set3
            	adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.q_o.Data(i1), 0, 2);
            	nBLJ1 := nBLJ1 + 1;
            end loop;

            if result.Success then
                --Encode q_z
                adaasn1rtl.encoding.uper.UPER_Enc_ConstraintPosWholeNumber(bs, val.q_z, 0, 3);
            end if;
        end if;
    end if;

end FragQ_Encode_aux;

procedure FragQ_Encode(val : FragQ; Stream : out FragQ_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream := FragQ_uPER_Stream'(Size_In_Bytes => FragQ_REQUIRED_BYTES_FOR_ENCODING, Current_Bit_Pos  => 0, pushDataPrm  => 0, fetchDataPrm => 0, Buffer => (others => 0));
    FragQ_Encode_aux(val, Stream, result);
end FragQ_Encode;

procedure FragQ_Decode_aux(val: out FragQ; bs : in out adaasn1rtl.encoding.Bitstream; result : OUT adaasn1rtl.ASN1_RESULT)
is

    i1:Integer;
    nLengthTmp1:Integer;
    nRemainingItemsVar1:Integer;
    nCurBlockSize1:Integer;
    nCurOffset1:Integer;
begin
    -- val := FragQ_Init;

    --Decode q_x
    result.ErrorCode := ERR_UPER_DECODE_FRAGQ_Q_X;
    adaasn1rtl.encoding.uper.UPER_Dec_boolean(bs, val.q_x, result.Success);
    if result.Success then
        --Decode q_o
        nLengthTmp1 := 0;
        nCurBlockSize1 := 0;
        result.ErrorCode := ERR_UPER_DECODE_FRAGQ_Q_O;
        -- decode blockSize
        adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nRemainingItemsVar1, 0, 255, 8, result.Success);
        nCurOffset1 := 1;

        while result.Success AND (nRemainingItemsVar1 = 16#C4# OR nRemainingItemsVar1 = 16#C3# OR nRemainingItemsVar1 = 16#C2# OR nRemainingItemsVar1 = 16#C1#)  loop
            --# assert i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1 ;
            if nRemainingItemsVar1 = 16#C4# then
                nCurBlockSize1 := 16#10000#;
            elsif nRemainingItemsVar1 = 16#C3# then
                nCurBlockSize1 := 16#C000#;
            elsif nRemainingItemsVar1 = 16#C2# then
                nCurBlockSize1 := 16#8000#;
            else
                nCurBlockSize1 := 16#4000#;
            end if;

            result.Success := nCurOffset1 + nCurBlockSize1 - 1 <= 68000;
            i1 := nCurOffset1;
            while i1<= nCurOffset1 + nCurBlockSize1 - 1 AND result.Success loop
            --# assert  i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1  and
            --#        K.K>=K~.K and K.K<=K~.K+8+ 2*(i1-1);
                result.ErrorCode := ERR_UPER_DECODE_FRAGQ_Q_O_ELM;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.q_o.Data(i1), 0, 3, 2, result.Success);
                i1 := i1 + 1;
            end loop;
            nLengthTmp1 := nLengthTmp1 + nCurBlockSize1;
            nCurOffset1 := nCurOffset1 + nCurBlockSize1;
            exit when not result.Success;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, nRemainingItemsVar1, 0, 255, 8, result.Success);
        end loop;

        if result.Success and nRemainingItemsVar1 >= 16#80# then
            declare
                len2:Integer;
            begin
                nRemainingItemsVar1 := (nRemainingItemsVar1 - 16#80#) * 16#100#;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintWholeNumberInt(bs, len2, 0, 255, 8, result.Success);
                if result.Success then
                     nRemainingItemsVar1 := nRemainingItemsVar1 + len2;
                end if;
            end;
        end if;

        result.Success := result.Success and then nCurOffset1 + nRemainingItemsVar1 -1 <= 68000;
        if result.Success then
            i1 := nCurOffset1;
            while i1<= nCurOffset1 + nRemainingItemsVar1 -1 AND result.Success loop
            --# assert  i1 >=nCurOffset1 and i1<=nCurOffset1 + nRemainingItemsVar1  and
            --#        K.K>=K~.K and K.K<=K~.K+8+ 2*(i1-1);
                result.ErrorCode := ERR_UPER_DECODE_FRAGQ_Q_O_ELM;
                adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.q_o.Data(i1), 0, 3, 2, result.Success);
                i1 := i1 + 1;
            end loop;
            nLengthTmp1 := nLengthTmp1 + nRemainingItemsVar1;
        end if;


        if result.Success and nLengthTmp1 >= 1 and nLengthTmp1 <= 68000 then
            val.q_o.Length := nLengthTmp1;

        else
            result.Success := false;	--COVERAGE_IGNORE
        end if;

        if result.Success then
            --Decode q_z
            result.ErrorCode := ERR_UPER_DECODE_FRAGQ_Q_Z;
            adaasn1rtl.encoding.uper.UPER_Dec_ConstraintPosWholeNumber(bs, val.q_z, 0, 7, 3, result.Success);
        end if;
    end if;
end FragQ_Decode_aux;
procedure FragQ_Decode(val:out FragQ; Stream : IN OUT FragQ_uPER_Stream; result : OUT adaasn1rtl.ASN1_RESULT)
is
begin
    Stream.Current_Bit_Pos :=0;
    FragQ_Decode_aux(val, Stream, result);
    if result.success then
        result := FragQ_IsConstraintValid(val);
    end if;

end FragQ_Decode;


pragma Warnings (On, "condition can only be False if invalid values present");
pragma Warnings (On, "condition can only be True if invalid values present");

end UPM;